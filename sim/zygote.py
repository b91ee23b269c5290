from .world import zygote_main

if __name__ == '__main__':
    zygote_main()
