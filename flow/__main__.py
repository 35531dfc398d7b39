import sys
import threading

sys.setrecursionlimit(100000)
threading.stack_size(1 << 29)


def go():
    global rc
    from .check import main
    rc = main(sys.argv[1:])


rc = 2
if __name__ == "__main__":
    # a signal handler needs the main thread: the deep recursion runs here with a raised stack
    import resource
    import os
    if os.environ.get("FLOW_STACK") != "1":
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 1 << 30
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        except ValueError:
            pass
        os.environ["FLOW_STACK"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "flow"] + sys.argv[1:])
    go()
    sys.stdout.flush()
    sys.exit(rc)
