#!/usr/bin/env python3
"""replay.py FILE: runs a recorded violation again, exactly. Exit 1 if it reproduces, 0 if it does not."""
import os
import sys

VENV = "/opt/venv/bin/python"
here = os.path.dirname(os.path.abspath(__file__))
want = VENV if os.path.exists(VENV) else sys.executable
if os.environ.get("DST_READY") != "1":
    env = dict(os.environ, DST_READY="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONDEVMODE", "PYTHONWARNINGS"):
        env.pop(k, None)
    os.execve(want, [want, "-X", "utf8", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, here)


def main():
    import signal
    import warnings
    warnings.simplefilter("ignore")
    from dst import engine
    signal.signal(signal.SIGALRM, engine._on_alarm)
    o, d = engine.replay(sys.argv[1])
    for h in o.w.trace_text(100):
        print("  " + h)
    if o.violation is None:
        print("no violation")
        sys.exit(0)
    print("%s: %s" % o.violation)
    same = o.w.sched.digest() == d["digest"] and o.violation[0] == d["signature"]
    print("identical to the recorded run" if same else "DIFFERS from the recorded run")
    print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(sys.argv[1])))
    sys.exit(1)


if __name__ == "__main__":
    main()
