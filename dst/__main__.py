import sys
import traceback

from . import runner

if __name__ == "__main__":
    try:
        cmd = sys.argv[1]
        if cmd == "check":
            rc = runner.check(sys.argv[2])
        elif cmd == "replay":
            rc = runner.replay(sys.argv[2])
        elif cmd == "selftest":
            rc = runner.selftest(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1)
        elif cmd == "setup":  # nothing to build: show that a simulated process can be started
            z = runner.Zyg(1)
            z.wait_up()
            z.close()
            print("simulated process starts")
            rc = 0
        else:
            raise SystemExit("usage: python -m dst check C01 | replay FILE | selftest C01 N [SEED]")
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR", flush=True)
        rc = 2
    sys.exit(rc)
