import sys
import os

if __name__ == "__main__":
    from vlib.core import main

    args = sys.argv[1:]
    rep = args[args.index("--replay") + 1] if "--replay" in args else None
    rc = main(args[0], rep)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
