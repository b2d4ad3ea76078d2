#!/usr/bin/env python3
"""check.py <property> [--root DIR] [--tier quick|thorough]: static check of one property of /repo."""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def run(out):
    from rules.common import main
    args = sys.argv[1:]
    root, tier = "/repo", None
    if "--root" in args:
        i = args.index("--root")
        root = args[i + 1]
        del args[i:i + 2]
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    try:
        out.append(max((main(pid, root, tier) for pid in args), default=2))
    except BaseException:
        import traceback
        traceback.print_exc()
        out.append(4)


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=run, args=(res,))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 4)
