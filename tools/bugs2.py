"""Planted bugs, second batch (python3 bugs2.py [ids])."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import build
from concurrent.futures import ThreadPoolExecutor
R="rsfile_registries.py"; A="rsfileio_abstract.py"; U="rsfileio_unix.py"; S="rsfile_streams.py"; F="rsfile_factories.py"; T="rsfile_utilities.py"
B=[]
B.append(("c07-readers-keep-read-ahead","C07","a read-only buffered stream that has read ahead, another process changing the file, then a lock by the reader",
"data read after acquiring a shared lock is stale read-ahead",
[(S,"    def lock_file(self, *args, **kwargs):\n        self._reset_buffers()\n        remover = self.raw","    def lock_file(self, *args, **kwargs):\n        if self.raw.writable():\n            self._reset_buffers()\n        remover = self.raw")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
with open(p, "wb") as f:
    f.write(b"old" * 100)
r = rsfile.rsopen(p, "RNB", locking=False)
assert r.read(3) == b"old"
with open(p, "r+b") as f:
    f.write(b"new" * 100)
with r.lock_file():
    d = r.read(3)
assert d == b"new", d
'''))
B.append(("c03-interrupted-wait-keeps-range","C03","KeyboardInterrupt (or another exception that is not an OSError) while waiting between two attempts at the kernel lock",
"an interrupted lock attempt leaves its range registered as locked",
[(A,"""            finally:
                if not success:
                    with""","""            except (EnvironmentError, RuntimeError):
                if True:
                    with"""),
 (A,"""                        self._inner_cancel_file_lock(length, abs_offset)

        return""","""                        self._inner_cancel_file_lock(length, abs_offset)
                    raise

        return""")],
'''
import sys, os, subprocess, signal, threading, time, rsfile
p = os.path.join(sys.argv[1], "f")
open(p, "w").close()
code = """
import rsfile, sys
f = rsfile.rsopen(sys.argv[1], "RWB", locking=False, buffering=0)
f.lock_file()
print("ok", flush=True)
sys.stdin.readline()
"""
c = subprocess.Popen([sys.executable, "-c", code, p], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
c.stdout.readline()
f = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
threading.Timer(1, lambda: os.kill(os.getpid(), signal.SIGINT)).start()
try:
    f.lock_file(timeout=30)
    assert 0
except KeyboardInterrupt:
    pass
c.communicate(b"x")
g = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
g.lock_file(timeout=2)
'''))
B.append(("c05-growing-delay","C05","a conflict that lasts a while, and ends well before the deadline",
"a waiting lock attempt sleeps longer and longer, notices a free range late and overshoots its timeout",
[(A,"            time.sleep(self.default_spinlock_delay)","            time.sleep(max(self.default_spinlock_delay, delay / 2))")],
'''
import sys, os, time, threading, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
g = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
f.lock_file()
for timeout in (4.3, 5, 6.2):
    t = time.monotonic()
    try:
        g.lock_file(timeout=timeout)
        assert 0
    except IOError:
        pass
    d = time.monotonic() - t
    assert timeout <= d < timeout + 0.6, "timeout %s, gave up after %s s" % (timeout, d)
'''))
B.append(("c08-empty-file-not-locked","C08","several writers of a file which is still missing or empty",
"an erasing open of an empty file does not lock it",
[(F,"            if locking:\n","            if locking and not (extended_kwargs[\"truncate\"] and timeout is None and raw.size() == 0):\n")],
'''
import sys, os, subprocess, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "WEB")
code = """
import rsfile, sys
try:
    rsfile.rsopen(sys.argv[1], "WEB", timeout=0)
except IOError:
    sys.exit(7)
"""
r = subprocess.call([sys.executable, "-c", code, p])
assert r == 7, "two erasing sessions at once: %s" % r
'''))
B.append(("c01-new-file-not-locked","C01","an exclusive creation with default locking, and another process that opens the new file at once",
"the creator of a file does not own the lock it asked for",
[(F,"            if locking:\n","            if locking and not raw_kwargs[\"must_create\"]:\n")],
'''
import sys, os, subprocess, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "WCB")
code = """
import rsfile, sys
try:
    rsfile.rsopen(sys.argv[1], "RWNB", timeout=0)
except IOError:
    sys.exit(7)
"""
r = subprocess.call([sys.executable, "-c", code, p])
assert r == 7, "two exclusive locks at once: %s" % r
'''))
B.append(("c09-queries-not-serialized","C09","a query (tell, size) made by a thread while another thread is in the middle of a call, or holds the mutex",
"tell() and size() are not serialized with the other calls",
[(S,"        if not name.startswith(\"_\") and callable(attr):","        if not name.startswith(\"_\") and callable(attr) and name not in (\"tell\", \"size\", \"seekable\", \"readable\", \"writable\"):")],
'''
import sys, os, threading, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "RWB", locking=False)
got = []
def query():
    got.append(f.size())
    got.append(f.tell())
with f.mutex:
    f.write(b"x" * 10)
    t = threading.Thread(target=query, daemon=True)
    t.start()
    t.join(1)
    assert not got, "a call took effect inside the atomic group of another thread: %r" % got
    f.write(b"y" * 10)
t.join(10)
assert got == [20, 20], got
'''))
B.append(("c10-readers-thread-mutex","C10","a read-only stream opened inheritable, shared by fork, used by both processes",
"calls of parent and child on a shared readable stream are not serialized",
[(F,"    is_interprocess = raw_kwargs[\"inheritable\"] and hasattr(os, \"fork\")","    is_interprocess = raw_kwargs[\"inheritable\"] and raw_kwargs[\"write\"] and hasattr(os, \"fork\")")],
'''
import sys, os, time, rsfile
p = os.path.join(sys.argv[1], "f")
with open(p, "wb") as f:
    f.write(b"0123456789" * 100)
f = rsfile.rsopen(p, "RINB", buffering=0, locking=False)
r, w = os.pipe()
with f.mutex:
    pid = os.fork()
    if pid == 0:
        with f.mutex:
            os.write(w, b"c" + f.read(1))
        os._exit(0)
    time.sleep(1)
    assert f.read(5) == b"01234", "the child read in the middle of the atomic group"
    os.write(w, b"p")
os.waitpid(pid, 0)
d = os.read(r, 10)
assert d == b"pc5", d
'''))
B.append(("c11-handles-closed","C11","a descriptor wrapped through the handle argument with closefd=False",
"a wrapped descriptor gets closed although closefd is False",
[(U,"        if getattr(self, \"_closefd\", False):","        if getattr(self, \"_closefd\", False) or getattr(self, \"_origin\", None) == \"handle\":")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
fd = os.open(p, os.O_RDWR | os.O_CREAT)
f = rsfile.rsopen(mode="RWB", handle=fd, closefd=False, locking=False)
f.write(b"abc")
f.close()
assert os.fstat(fd).st_size == 3
'''))
B.append(("c11-failed-open-leaks","C11","an opening interrupted (KeyboardInterrupt) while it waits for its lock",
"the descriptor of an interrupted opening stays open until garbage collection, with the exception's traceback",
[(F,"    except:\n        result.close()\n        raise","    except Exception:\n        result.close()\n        raise")],
'''
import sys, os, signal, threading, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "RWB")
n = len(os.listdir("/proc/self/fd"))
threading.Timer(1, lambda: os.kill(os.getpid(), signal.SIGINT)).start()
try:
    rsfile.rsopen(p, "RWB", timeout=30)
    assert 0
except KeyboardInterrupt as e:
    keep = e
f.close()
assert len(os.listdir("/proc/self/fd")) == n - 1, os.listdir("/proc/self/fd")
'''))
B.append(("c12-metadata-not-synced","C12","sync(metadata=True) and a crash; the data itself is safe",
"file times are not on stable storage when sync(metadata=True) returns",
[(U,"        if not metadata and hasattr(unix, \"fdatasync\"):","        if hasattr(unix, \"fdatasync\") and not full_flush:")],
'''
import sys, os
calls = []
def rec(name):
    old = getattr(os, name)
    def f(fd):
        calls.append(name)
        return old(fd)
    setattr(os, name, f)
rec("fsync")
rec("fdatasync")
import rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "RWB", locking=False)
f.write(b"abc")
f.sync(metadata=True, full_flush=False)
assert "fsync" in calls, calls
'''))
B.append(("c12-append-not-synchronous","C12","a stream opened with both A and S flags",
"data written in append mode is not on stable storage when write or flush returns",
[(U,"            if synchronized:\n                flags |= unix.O_SYNC","            if synchronized and not append:\n                flags |= unix.O_SYNC")],
'''
import sys, os, fcntl, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "ASB", locking=False, buffering=0)
assert fcntl.fcntl(f.fileno(), fcntl.F_GETFL) & os.O_SYNC == os.O_SYNC
'''))
B.append(("c13-write-loop-loses-count","C13","a raw write of which the kernel takes a part, then refuses the rest (disk or file size limit reached)",
"an error after a partial transfer hides the bytes already written, which a buffered stream then writes again",
[(U,"            return unix.write(self._fileno, bytes)\n","            written = unix.write(self._fileno, bytes)\n            while self._seekable and written < len(bytes):\n                written += unix.write(self._fileno, bytes[written:])  # no short writes on regular files\n            return written\n")],
'''
import sys, os, resource, signal, rsfile
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "WEB", locking=False, buffering=100)
_, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
resource.setrlimit(resource.RLIMIT_FSIZE, (60, hard))
f.write(bytes(range(90)))
try:
    f.flush()
    assert 0
except IOError:
    pass
resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
f.flush()
f.close()
d = open(p, "rb").read()
assert d == bytes(range(90)), (len(d), d)
'''))
B.append(("c14-memoryview-slice","C14","a raw write of a memoryview on a part of a larger object",
"the whole object is written instead of the slice",
[(A,"            buffer = buffer.tobytes()\n        elif isinstance(buffer, array):","            buffer = bytes(buffer.obj) if buffer.contiguous else buffer.tobytes()\n        elif isinstance(buffer, array):")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "WEB", locking=False, buffering=0)
n = f.write(memoryview(b"0123456789")[2:5])
f.close()
d = open(p, "rb").read()
assert (n, d) == (3, b"234"), (n, d)
'''))
B.append(("c19-readall-stops-early","C19","a writer that delivers its data in several pieces",
"read() of everything stops at the first short transfer instead of the end of stream",
[(A,"            if not data:\n                break\n            chunks.append(data)","            if not data:\n                break\n            chunks.append(data)\n            if len(data) < defs.DEFAULT_BUFFER_SIZE:\n                break  # end of file reached, no need for another system call")],
'''
import sys, os, threading, time, rsfile
r, w = os.pipe()
f = rsfile.rsopen(mode="RB", fileno=r, buffering=0)
def write():
    os.write(w, b"abc")
    time.sleep(0.5)
    os.write(w, b"def")
    os.close(w)
threading.Thread(target=write).start()
d = f.read()
assert d == b"abcdef", d
'''))
B.append(("c14-readall-short-read","C14","a kernel that returns less than asked for in the middle of the file",
"reading everything stops before the end of the file",
[(A,"            data = self.read(defs.DEFAULT_BUFFER_SIZE)\n            if not data:\n                break\n            chunks.append(data)","            data = self.read(defs.DEFAULT_BUFFER_SIZE)\n            if not data:\n                break\n            chunks.append(data)\n            if self._seekable and len(data) < defs.DEFAULT_BUFFER_SIZE:\n                break  # end of file reached, no need for another system call")],
'''
import sys, os
real = os.read
os.read = lambda fd, n: real(fd, min(n, 10))  # as on some network file systems
import rsfile
from rsfile.rsbackend import unix_stdlib
unix_stdlib.read = os.read
p = os.path.join(sys.argv[1], "f")
with open(p, "wb") as f:
    f.write(b"0123456789" * 10)
f = rsfile.rsopen(p, "RNB", locking=False, buffering=0)
d = f.read()
assert len(d) == 100, len(d)
'''))
B.append(("c15-synchronized-not-appending","C15","a stream opened with A and S, and another writer that extends the file",
"appended data overwrites what others have appended meanwhile",
[(U,"            if synchronized:\n                flags |= unix.O_SYNC\n","            flags = unix.O_SYNC if synchronized else 0\n"),
 (U,"            if append:\n                flags |= unix.O_APPEND\n","            if append and not synchronized:\n                flags |= unix.O_APPEND\n")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "ASB", locking=False, buffering=0)
g = rsfile.rsopen(p, "ASB", locking=False, buffering=0)
f.write(b"aaaa")
g.write(b"bb")
d = open(p, "rb").read()
assert d == b"aaaabb", d
'''))
B.append(("c16-position-clamped","C16","a truncation below the current position",
"truncate() moves the stream position",
[(U,"        unix.ftruncate(self._fileno, size)\n\n    @_unix_error_converter\n    def _inner_extend","        unix.ftruncate(self._fileno, size)\n        if self._append and self._inner_tell() > size:\n            self._inner_seek(size, os.SEEK_SET)  # nothing left beyond\n\n    @_unix_error_converter\n    def _inner_extend")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "RAEB", locking=False, buffering=0)
f.write(b"0123456789")
assert f.truncate(4) == 4
assert f.tell() == 10, f.tell()
'''))
B.append(("c16-requested-size-reported","C16","another writer that changes the size of the file during the truncation, or a position query in between",
"truncate() reports the requested size whatever the file's size",
[(A,"        if size == current_size:\n            pass  # nothing to be done\n        elif size < current_size:","        if abs(size - current_size) < 2:\n            pass  # nothing worth a system call\n        elif size < current_size:")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
f = rsfile.rsopen(p, "RWEB", locking=False, buffering=0)
f.write(b"0123456789")
f.truncate(9)
assert os.path.getsize(p) == 9
'''))
B.append(("c17-check-then-create","C17","two exclusive creations of one path at the same time, or a name that points nowhere",
"several exclusive creations of one path succeed",
[(U,"            elif must_create:\n                flags |= unix.O_CREAT | unix.O_EXCL","            elif must_create:\n                if os.path.exists(strname):\n                    raise IOError(errno.EEXIST, \"File exists\", path)\n                flags |= unix.O_CREAT")],
'''
import sys, os, threading, rsfile
won = []
for i in range(400):
    p = os.path.join(sys.argv[1], "f%d" % i)
    barrier = threading.Barrier(6)
    wins = []
    def create():
        barrier.wait()
        try:
            f = rsfile.rsopen(p, "WCB", locking=False, buffering=0)
        except IOError:
            return
        wins.append(f)
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=create) for _ in range(6)]
    for t in ts: t.start()
    for t in ts: t.join()
    won.append(len(wins))
assert set(won) == {1}, sorted(set(won))
os.symlink(os.path.join(sys.argv[1], "missing"), os.path.join(sys.argv[1], "link"))
try:
    rsfile.rsopen(os.path.join(sys.argv[1], "link"), "WCB")
    assert 0, "created through a dangling link"
except IOError:
    pass
'''))
B.append(("c18-wrapped-made-private","C18","a descriptor which its owner made inheritable, wrapped by a stream",
"wrapping a descriptor changes whether executed programs inherit it",
[(U,"            assert handle is None\n            self._fileno = self._handle = fileno\n","            assert handle is None\n            self._fileno = self._handle = fileno\n            os.set_inheritable(fileno, inheritable)\n")],
'''
import sys, os, rsfile
p = os.path.join(sys.argv[1], "f")
fd = os.open(p, os.O_RDWR | os.O_CREAT)
os.set_inheritable(fd, True)
f = rsfile.rsopen(mode="RWB", fileno=fd, closefd=False, locking=False)
assert os.get_inheritable(fd)
'''))
B.append(("c02-timeout-unlocks","C02","a stream whose lock attempt on a range fails after it was granted part of the bookkeeping, while another stream of the process keeps a lock",
"the release of a range unlocks every byte of the file for the process",
[(U,"        if length is None:\n            length = 0  # that's the \"infinity\" value for fcntl\n\n        unix.lockf(fd, operation, length, abs_offset, os.SEEK_SET)","        if length is None:\n            length = 0  # that's the \"infinity\" value for fcntl\n\n        try:\n            unix.lockf(fd, operation, length, abs_offset, os.SEEK_SET)\n        except unix.error:\n            unix.lockf(fd, unix.LOCK_UN, 0, abs_offset, os.SEEK_SET)  # let's leave nothing behind\n            raise")],
'''
import sys, os, subprocess, rsfile
p = os.path.join(sys.argv[1], "f")
open(p, "w").close()
holder = """
import rsfile, sys
f = rsfile.rsopen(sys.argv[1], "RWB", locking=False, buffering=0)
f.lock_file(offset=0, length=10)
print("ok", flush=True)
sys.stdin.readline()
"""
c = subprocess.Popen([sys.executable, "-c", holder, p], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
c.stdout.readline()
f = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
g = rsfile.rsopen(p, "RWB", locking=False, buffering=0)
f.lock_file(offset=100, length=10)
try:
    g.lock_file(timeout=0, offset=0, length=5)
    assert 0
except IOError:
    pass
code = """
import rsfile, sys
g = rsfile.rsopen(sys.argv[1], "RWB", locking=False, buffering=0)
try:
    g.lock_file(timeout=0, offset=100, length=10)
except IOError:
    sys.exit(7)
"""
r = subprocess.call([sys.executable, "-c", code, p])
c.communicate(b"x")
assert r == 7, "another process got a lock that is held: %s" % r
'''))
if __name__=="__main__":
    want=sys.argv[1:]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda b: build(*b), [b for b in B if not want or b[0] in want]))
