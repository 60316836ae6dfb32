#!/usr/bin/env python3
"""Self-test of the simulator: same seed, same run; replay of the recorded decisions, same run."""
import os
import sys

VENV = "/opt/venv/bin/python"
here = os.path.dirname(os.path.abspath(__file__))
want = VENV if os.path.exists(VENV) else sys.executable
if os.environ.get("DST_READY") != "1":
    env = dict(os.environ, DST_READY="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONDEVMODE", "PYTHONWARNINGS"):
        env.pop(k, None)
    os.execve(want, [want, "-X", "utf8", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, here)


def main():
    import random
    import signal
    import warnings
    warnings.simplefilter("ignore")
    from dst import engine
    signal.signal(signal.SIGALRM, engine._on_alarm)
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 12
    bad = 0
    props = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(here, "dst", "props"))
                                   if f.startswith("c") and f.endswith(".py"))
    for pid in props:
        prop = engine.load_prop(pid)
        for i in range(n):
            seed = engine.run_seed(4242, pid, i)
            digests = []
            trace = None
            for mode in ("seed", "seed", "trace"):
                program = prop.gen(random.Random(seed))
                o = engine.execute(prop, program, seed=seed) if mode == "seed" else engine.execute(prop, program, trace=trace)
                trace = trace or o.w.sched.ch.trace()
                digests.append((o.status, o.w.sched.digest(), [r.show() for r in o.w.history]))
                engine.cleanup(o)
            if digests[0] != digests[1] or digests[0] != digests[2]:
                bad += 1
                print("NOT DETERMINISTIC: %s run %d (seed %d): %s" % (pid, i, seed, [d[:2] for d in digests]))
                for a, b, c in zip(digests[0][2], digests[1][2], digests[2][2]):
                    if not a == b == c:
                        print("  ", a, "\n  ", b, "\n  ", c)
                        break
    print("determinism: %d properties x %d runs, %d failures" % (len(props), n, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
