import sys; sys.path.insert(0,"/tmp")
from mkbug import build
from concurrent.futures import ThreadPoolExecutor
R="rsfile_registries.py"; A="rsfileio_abstract.py"; U="rsfileio_unix.py"; S="rsfile_streams.py"; F="rsfile_factories.py"; T="rsfile_utilities.py"
B=[]
B.append(("c06-open-ended-overlap","C06","an existing lock without end (length None) starting beyond a new bounded range",
"a bounded lock below the start of another handle's unbounded lock is refused although the ranges are disjoint",
[(R,"if min_end is None or (new_end is not None and new_end < min_end):","if min_end is not None and new_end is not None and new_end < min_end:")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
g = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
f.lock_file(offset=100)            # [100, infinity)
g.lock_file(timeout=0, offset=0, length=50)
print("disjoint lock granted")
'''))
B.append(("c02-shared-locks-not-counted","C02","one stream of the process holds only shared locks, another stream on the same file gets closed, another process looks",
"closing a descriptor drops the kernel's shared lock of another stream of the process",
[(R,"            if unique_id in self._lock_registry and self._lock_registry[unique_id][1]:\n                return True","            if unique_id in self._lock_registry and not all(lock[1] for lock in self._lock_registry[unique_id][1]):\n                return True")],
'''
import sys, os, subprocess, rsfile
p = os.path.join(sys.argv[1], "f")
open(p, "w").close()
f = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
f.lock_file(shared=True)
rsfile.rsopen(p, "RWB", locking=False, buffering=0).close()
code = """
import rsfile, sys
g = rsfile.rsopen(sys.argv[1], "RWB", locking=False, buffering=0)
try:
    g.lock_file(timeout=0, shared=False)
except IOError:
    sys.exit(7)
"""
r = subprocess.call([sys.executable, "-c", code, p])
assert r == 7, "another process got an exclusive lock: %s" % r
'''))
B.append(("c05-gives-up-before-overshooting","C05","a retry delay and a timeout such that the next attempt would fall after the deadline",
"a lock attempt gives up before its timeout has elapsed",
[(A,"if delay >= timeout:  # else","if delay + self.default_spinlock_delay > timeout:  # else")],
'''
import sys, os, subprocess, time, threading, rsfile
p = os.path.join(sys.argv[1], "f")
rsfile.set_rsfile_options(default_spinlock_delay=0.8)
f = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
g = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
f.lock_file()
t = time.monotonic()
try:
    g.lock_file(timeout=1.0)
    assert 0
except IOError:
    pass
d = time.monotonic() - t
assert d >= 1.0, "gave up after %s s only" % d
'''))
B.append(("c04-notify-one","C04","two threads wait for different ranges of one stream's two locks and the first waiter cannot use the range that is released",
"a blocked lock request is never granted although its range is free",
[(R,"                self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them\n                if not locks:","                self._lock_registry[unique_id][0].notify()  # there is a single range to be taken over\n                if not locks:")],
'''
import sys, os, threading, time, rsfile
p = os.path.join(sys.argv[1], "f")
def new():
    return rsfile.rsopen(p, "RWB", locking=False, buffering=0)
f, g, h = new(), new(), new()
f.lock_file(offset=0, length=10)
f.lock_file(offset=20, length=10)
done = []
def want(s, offset):
    s.lock_file(offset=offset, length=10)
    done.append(offset)
a = threading.Thread(target=want, args=(g, 0), daemon=True)
a.start()
time.sleep(0.7)
b = threading.Thread(target=want, args=(h, 20), daemon=True)
b.start()
time.sleep(0.7)
f.unlock_file(offset=20, length=10)
b.join(5)
assert done == [20], "the free range was not granted: %r" % done
f.unlock_file(offset=0, length=10)
a.join(5)
assert done == [20, 0]
'''))
if __name__=="__main__":
    want=sys.argv[1:]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda b: build(*b), [b for b in B if not want or b[0] in want]))
