import sys

from mc.core import main

if __name__ == "__main__":
    # run through the module namespace so that worker processes share it
    import mc.core as core

    sys.exit(core.main(sys.argv[1:]))
