From aea21681f408974677570d219336722396bc03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 01/39] fix: keep the kernel lock of bytes that other streams
 of the process still share

---
 src/rsfile/rsfile_registries.py | 25 +++++++++++++++++++++++++
 src/rsfile/rsfileio_abstract.py | 13 +++++++++----
 src/rsfile/rsfileio_unix.py     | 13 ++++++++++---
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 890687a..a070287 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -224,6 +224,31 @@ class IntraProcessLockRegistryClass(object):
 
             return removed_locks
 
+    def get_unlocked_ranges(self, unique_id, length, start):
+        """
+        Returns the [start, end] parts of the byte range which are not covered by any lock of this process
+        (end=None means 'infinity').
+        """
+        assert unique_id, unique_id
+        end = (start + length) if length else None
+        with self.mutex:
+
+            self._check_forking()
+
+            ranges = []
+            records = self._lock_registry[unique_id][1] if unique_id in self._lock_registry else []
+            for (_, _, lock_start, lock_end) in sorted(records, key=lambda record: record[2]):
+                if end is not None and lock_start >= end:
+                    break
+                if lock_start > start:
+                    ranges.append((start, lock_start))
+                if lock_end is None:
+                    return ranges
+                start = max(start, lock_end)
+            if end is None or start < end:
+                ranges.append((start, end))
+            return ranges
+
     def try_deleting_unique_id_entry(self, unique_id):
         """
         Returns True iff an entry existed and could be deleted.
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dab493f..629d80b 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -630,10 +630,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
             finally:
                 if not success:
-                    res = IntraProcessLockRegistry.unregister_file_lock(
-                        self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
-                    )
-                    assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                    with IntraProcessLockRegistry.mutex:
+                        res = IntraProcessLockRegistry.unregister_file_lock(
+                            self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+                        )
+                        assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                        self._inner_cancel_file_lock(length, abs_offset)
 
         return self._lock_remover(length, abs_offset, os.SEEK_SET)
 
@@ -725,6 +727,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     def _inner_file_unlock(self, length, abs_offset):
         self._unsupported("file_unlock")
 
+    def _inner_cancel_file_lock(self, length, abs_offset):
+        pass  # called after a failed locking attempt, when its range has been unregistered
+
 
 assert RSFileIOAbstract.__del__ is defs.io_module.IOBase.__del__  # Ensure the default implementation is used
 defs.io_module.RawIOBase.register(RSFileIOAbstract)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 7e2f987..3876730 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -294,10 +294,17 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     @_unix_error_converter
     def _inner_file_unlock(self, length, abs_offset):
 
-        if length is None:
-            length = 0  # that's the "infinity" value for fcntl
+        # fcntl() locks belong to the whole process, so we must not unlock bytes that other streams still
+        # have locked too (in shared mode)
+        ranges = IntraProcessLockRegistry.get_unlocked_ranges(self._lock_registry_inode, length, abs_offset)
 
         try:
-            unix.lockf(self._fileno, unix.LOCK_UN, length, abs_offset, os.SEEK_SET)
+            for (start, end) in ranges:
+                length = 0 if end is None else (end - start)  # 0 is the "infinity" value for fcntl
+                unix.lockf(self._fileno, unix.LOCK_UN, length, start, os.SEEK_SET)
         finally:
             self._purge_pending_related_file_descriptors()
+
+    def _inner_cancel_file_lock(self, length, abs_offset):
+        # other streams might have left parts of that range locked at kernel level, on our behalf
+        self._inner_file_unlock(length, abs_offset)
-- 
2.43.0


From 44117d0dcc62744ce0e6e99832ff885a32fccde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 02/39] fix: wake up the threads waiting for locks that get
 released by a stream close

---
 src/rsfile/rsfile_registries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index a070287..513fbfe 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -221,6 +221,7 @@ class IntraProcessLockRegistryClass(object):
                     remaining_locks.append(record)
 
             self._lock_registry[unique_id][1] = remaining_locks
+            self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
 
             return removed_locks
 
-- 
2.43.0


From b67649a53120da5f863ed6888caed3e76787c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 03/39] fix: report overlapping locks of a handle even when
 other handles conflict too

---
 src/rsfile/rsfile_registries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 513fbfe..f443684 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -116,6 +116,7 @@ class IntraProcessLockRegistryClass(object):
 
         if self._ensure_entry_exists(unique_id, create=True):
 
+            is_free = True
             for (other_handle, shared, start, end) in self._lock_registry[unique_id][1]:
 
                 if other_handle != handle and shared == new_shared == True:
@@ -132,7 +133,9 @@ class IntraProcessLockRegistryClass(object):
                         # we don't merge lock areas
                         raise RuntimeError("Same area of file locked twice by the same file descriptor")
                     else:
-                        return False
+                        is_free = False  # but we still check the other locks of that handle
+            if not is_free:
+                return False
 
         # print (">Thread %s handle %s takes lock with %s" % (threading.current_thread().name, handle, (new_shared,
         # new_start, new_end)))
-- 
2.43.0


From 0f1d106d622b32177894659318b9f7c775284b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 04/39] fix: release the lock when the body of its with-block
 raises

---
 src/rsfile/rsfileio_abstract.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 629d80b..8d4a594 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -526,10 +526,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
     @contextmanager
     def _lock_remover(self, length, offset, whence):
-        # we do nothing on __enter__()
-        yield
-        # we unlock on __exit__()
-        self.unlock_file(length=length, offset=offset, whence=whence)
+        try:
+            # we do nothing on __enter__()
+            yield
+        finally:
+            # we unlock on __exit__()
+            self.unlock_file(length=length, offset=offset, whence=whence)
 
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
-- 
2.43.0


From 0b7ed0df915ac8d6ee214da49055b7b066bb68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 05/39] fix: flush buffered data before the end of a with-block
 releases its lock

---
 src/rsfile/rsfile_streams.py    | 13 +++++++++++--
 src/rsfile/rsfileio_abstract.py | 30 +++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 58b5881..f168a39 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -50,7 +50,9 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.raw.lock_file(*args, **kwargs)
+        remover = self.raw.lock_file(*args, **kwargs)
+        remover.stream = self
+        return remover
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -94,7 +96,9 @@ class _text_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.buffer.lock_file(*args, **kwargs)
+        remover = self.buffer.lock_file(*args, **kwargs)
+        remover.stream = self
+        return remover
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -184,6 +188,11 @@ class RSThreadSafeWrapper(object):
 
         return attr
 
+    def lock_file(self, *args, **kwargs):
+        remover = self._secure_call("lock_file", *args, **kwargs)
+        remover.stream = self
+        return remover
+
     def __iter__(self):
         return iter(self.wrapped_stream)
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 8d4a594..7ddb90e 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -7,7 +7,6 @@ import stat
 import sys
 import time
 from array import array
-from contextlib import contextmanager
 
 from . import rsfile_definitions as defs
 from .rsfile_registries import IntraProcessLockRegistry, _default_rsfile_options
@@ -19,6 +18,24 @@ USE_MEMORYVIEW_CAST = hasattr(memoryview, "cast")
 _IOBASE_EMITS_UNRAISABLE = (sys.version_info >= (3, 13)) or (hasattr(sys, "gettotalrefcount") or sys.flags.dev_mode)
 
 
+class _LockRemover(object):
+    """
+    Context manager releasing a lock on exit, through the stream on which lock_file() was called
+    (so that this stream can push its buffered data to the file first).
+    """
+
+    def __init__(self, stream, length, offset):
+        self.stream = stream
+        self._length = length
+        self._offset = offset
+
+    def __enter__(self):
+        return None  # we do nothing
+
+    def __exit__(self, *args):
+        self.stream.unlock_file(length=self._length, offset=self._offset, whence=os.SEEK_SET)
+
+
 class RSFileIOAbstract(defs.io_module.RawIOBase):
     """
     This class is an improved version of the raw stream :class:`io.FileIO`, relying on native OS primitives,
@@ -524,15 +541,6 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
         return abs_offset
 
-    @contextmanager
-    def _lock_remover(self, length, offset, whence):
-        try:
-            # we do nothing on __enter__()
-            yield
-        finally:
-            # we unlock on __exit__()
-            self.unlock_file(length=length, offset=offset, whence=whence)
-
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
         self._checkSeekable()  # pipes and such can't be locked... already checks if closed
@@ -639,7 +647,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         assert res in (True, False)  # there may or may not be locks left after that, we dunno
                         self._inner_cancel_file_lock(length, abs_offset)
 
-        return self._lock_remover(length, abs_offset, os.SEEK_SET)
+        return _LockRemover(self, length, abs_offset)
 
     def unlock_file(self, length=None, offset=0, whence=os.SEEK_SET):
 
-- 
2.43.0


From deced0a8d5826ad6e5ec4b26e275b0b239148fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 06/39] fix: protect the first call of each method, and
 iteration, on thread-safe streams

---
 src/rsfile/rsfile_streams.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index f168a39..cdb9e65 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -185,6 +185,7 @@ class RSThreadSafeWrapper(object):
                 return self._secure_call(name, *args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
+            return _method_proxy
 
         return attr
 
@@ -194,7 +195,11 @@ class RSThreadSafeWrapper(object):
         return remover
 
     def __iter__(self):
-        return iter(self.wrapped_stream)
+        self._checkClosed()
+        return self
+
+    def __next__(self):
+        return self._secure_call("__next__")
 
     def __str__(self):
         return "Thread Safe Wrapper around %s" % self.wrapped_stream
-- 
2.43.0


From 17aa7f4695324ad8c67d93fbf19f44fa9d3bd124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 07/39] fix: do not leak the file descriptor when opening fails
 after the open() system call

---
 src/rsfile/rsfileio_unix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 3876730..42a0921 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -122,6 +122,10 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # print("Creating unix stream with context", locals())
             self._fileno = self._handle = unix.open(strname, flags, permissions)
 
+            # set at once, so that the file descriptor gets closed if something fails below
+            self._lock_registry_inode = self.unique_id()
+            self._lock_registry_descriptor = self._fileno
+
             # on unix we must prevent the opening of directories, but not named fifos or other special files
             stats = unix.fstat(self._fileno).st_mode
             if stat.S_ISDIR(stats):
-- 
2.43.0


From e7fc1b6957e930ac4d5b232590414aab85755afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 08/39] fix: raw readinto() returns None when a non-blocking
 stream has no data ready

---
 src/rsfile/rsfileio_abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 7ddb90e..536b000 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -417,8 +417,10 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             buffer = memoryview(buffer).cast("B")
 
         mybytes = self._inner_read(len(buffer))
-        byteslen = len(mybytes)
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
+        if mybytes is None:
+            return None  # nonblocking IO
+        byteslen = len(mybytes)
 
         if isinstance(buffer, array):
             typecode = b"b" if (sys.version_info[:2] < (3, 0)) else "b"  # typecode weirdness...
-- 
2.43.0


From 7124bbede5d7132afb66ac027b75309206c65d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 09/39] fix: measure lock timeouts with the monotonic clock

---
 src/rsfile/rsfileio_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 536b000..d8a1822 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -576,14 +576,14 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
 
-        start_time = time.time()
+        start_time = time.monotonic()
 
         def check_timeout(env_error):
             """
             If timeout has expired, raises the exception given as parameter.
             Else, sleeps for a short period.
             """
-            delay = time.time() - start_time
+            delay = time.monotonic() - start_time
             if not blocking:  # we have a timeout set
 
                 if delay >= timeout:  # else, we try again until success or timeout
-- 
2.43.0


From 11254961ad2180d23bec8e5acce6f19e9bc0f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 10/39] fix: do not hide the failure of a sync operation by
 trying a weaker one

---
 src/rsfile/rsfileio_unix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 42a0921..ca09035 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -19,6 +19,9 @@ from .rsfile_registries import IntraProcessLockRegistry
 
 UNIX_MSG_ENCODING = locale.getpreferredencoding()
 
+# errors of sync primitives which mean "not available here, use another one"
+UNSUPPORTED_SYNC_ERRORS = (errno.EINVAL, errno.ENOSYS, errno.ENOTSUP, errno.EOPNOTSUPP, errno.ENOTTY)
+
 
 class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     # Warning - this is to be used as a static method ! #
@@ -176,8 +179,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fcntl(self._fileno, unix.F_FULLFSYNC, 0)  # Mac OS X only
                 # print("FULLFLUSH_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in UNSUPPORTED_SYNC_ERRORS:
+                    raise  # data might not have reached the device
 
         if not metadata and hasattr(unix, "fdatasync"):
             try:
@@ -185,8 +189,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fdatasync(self._fileno)  # not supported on Mac OS X
                 # print("FDATASYNC_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in UNSUPPORTED_SYNC_ERRORS:
+                    raise  # data might not have reached the device
 
         unix.fsync(self._fileno)  # last attempt : metadata flush without full_sync guarantees
         # print("FSYNC_UNIX_DONE")
-- 
2.43.0


From cd56ee3c935cb074bac9b2f258bdd69049945fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 11/39] fix: support file descriptor 0 like any other

---
 src/rsfile/rsfile_factories.py  | 6 +++---
 src/rsfile/rsfile_registries.py | 2 +-
 src/rsfile/rsfileio_abstract.py | 2 +-
 src/rsfile/rsfileio_unix.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f058fa4..4fda687 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -238,7 +238,7 @@ def rsopen(
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
     if opener:
-        if raw_kwargs["fileno"]:
+        if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
             name, mode
@@ -250,7 +250,7 @@ def rsopen(
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] or raw_kwargs["handle"]:
+        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -298,7 +298,7 @@ def rsopen(
             buffering = defs.DEFAULT_BUFFER_SIZE
             # do not trigger the libc compatibility layer on windows,
             # since anyway it seems to have no st_blksize...
-            if raw._fileno:
+            if raw._fileno is not None:
                 try:
                     bs = os.fstat(raw._fileno).st_blksize
                 except (os.error, AttributeError):
diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index f443684..e5473c6 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -276,7 +276,7 @@ class IntraProcessLockRegistryClass(object):
 
     def add_unique_id_data(self, unique_id, data):
         assert unique_id, unique_id
-        assert data, data
+        assert data is not None, data
         with self.mutex:
             self._check_forking()
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index d8a1822..7632e7d 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -187,7 +187,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 # we bypass Rsfile for file descriptors that are pipes, devices, directories, symlinks etc.
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
-                    assert fileno or handle, (fileno, handle)  # it must NOT be a newly created file object, else bug
+                    assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index ca09035..2db0c8e 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -197,11 +197,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # print("FSYNC_UNIX_DONE")
 
     def _inner_fileno(self):
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-        assert self._handle
+        assert self._handle is not None
         return self._handle
 
     @_unix_error_converter
-- 
2.43.0


From 96433c497cd41d30956f4fbe646abae92af94f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 12/39] fix: a failing unlock or close does not keep other
 locks and descriptors of a closed stream alive

---
 src/rsfile/rsfileio_abstract.py | 10 +++++++++-
 src/rsfile/rsfileio_unix.py     |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 7632e7d..5dcfbe1 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -229,6 +229,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 defs.io_module.RawIOBase.close(self)  # we first mark the stream as closed... it flushes, also.
             finally:
 
+                unlock_error = None
+
                 with IntraProcessLockRegistry.mutex:
 
                     # We are careful, in case object initialization failed
@@ -238,11 +240,17 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         ):
                             # print (">>>>>>>> ", (handle, shared, start, end))
                             length = None if end is None else (end - start)
-                            self._inner_file_unlock(length, start)
+                            try:
+                                self._inner_file_unlock(length, start)
+                            except EnvironmentError as e:
+                                unlock_error = unlock_error or e  # other locks must be released nonetheless
 
                     # Mark the raw stream as closed, even if some operations failed
                     self._inner_close_streams()  # Might raise OverflowError
 
+                if unlock_error:
+                    raise unlock_error
+
     '''
     def __del__(self):
         """Destructor.  Calls close()."""
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 2db0c8e..58c8407 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -56,9 +56,15 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             res = IntraProcessLockRegistry.unique_id_has_locks(self._lock_registry_inode)
             if not res:  # no more locks left for that unique_id
                 data_list = IntraProcessLockRegistry.remove_unique_id_data(self._lock_registry_inode)
+                close_error = None
                 for fd in data_list:  # we close all pending file descriptors (which were left opened to prevent
                     # fcntl() lock autoremoving)
-                    unix.close(fd)
+                    try:
+                        unix.close(fd)
+                    except unix.error as e:
+                        close_error = close_error or e  # other descriptors must be closed nonetheless
+                if close_error:
+                    raise close_error
 
             return not res
 
-- 
2.43.0


From 4b52e75aa2f15d490e7f8439a3e636b54f9dabfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 13/39] fix: raise at once when a lock attempt can never
 succeed, instead of retrying for ever

---
 src/rsfile/rsfileio_abstract.py | 8 ++++++++
 src/rsfile/rsfileio_unix.py     | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 5dcfbe1..dd4d0ae 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -84,6 +84,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     See RSOpen() docs for the semantic of other parameters.
     """
 
+    # errors with which the system signals that a locking attempt can never succeed
+    _permanent_lock_errors = ()
+
     def __init__(
         self,
         path=None,  # it seems pywin32 already uses unicode versions of these functions, so it's cool  :-)
@@ -580,6 +583,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             raise IOError("Can't obtain exclusive lock on non-writable stream, or shared lock on non-readable stream.")
 
         abs_offset = self._convert_relative_offset_to_absolute(offset, whence)
+        if abs_offset < 0:
+            raise defs.BadValueTypeError("offset must designate a positive absolute position.")
+
         blocking = timeout is None  # here, it means "forever waiting for the lock"
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
@@ -646,6 +652,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         success = True  # we leave the two loops
 
                     except EnvironmentError as e:
+                        if e.errno in self._permanent_lock_errors:
+                            raise  # trying again would be useless
                         check_timeout(e)
 
             finally:
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 58c8407..b5ee1d9 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -24,6 +24,9 @@ UNSUPPORTED_SYNC_ERRORS = (errno.EINVAL, errno.ENOSYS, errno.ENOTSUP, errno.EOPN
 
 
 class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
+
+    _permanent_lock_errors = (errno.EBADF, errno.EINVAL, errno.EOVERFLOW)
+
     # Warning - this is to be used as a static method ! #
     def _unix_error_converter(f):  # @NoSelf
         @functools.wraps(f)
-- 
2.43.0


From f943daf01643b81e7b90abbb7009a38ddc109379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 14/39] fix: zero-filling by truncate() copes with partial
 writes and restores the position

---
 src/rsfile/rsfileio_abstract.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dd4d0ae..aac1a61 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -513,15 +513,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 assert current_size < size
                 old_pos = self._inner_tell()
                 self._inner_seek(current_size, os.SEEK_SET)
-                bytes_to_write = size - current_size
-                (q, r) = divmod(bytes_to_write, defs.DEFAULT_BUFFER_SIZE)
-
-                for _ in range(q):
-                    padding = b"\0" * defs.DEFAULT_BUFFER_SIZE
-                    self._inner_write(padding)
-                count = self._inner_write(b"\0" * r)
-                assert count == r, (count, r)  # no blocking writes for files, theoretically...
-                self._inner_seek(old_pos)  # important
+                try:
+                    while current_size < size:
+                        padding = b"\0" * min(size - current_size, defs.DEFAULT_BUFFER_SIZE)
+                        current_size += self._inner_write(padding)  # might be less than asked for
+                finally:
+                    self._inner_seek(old_pos, os.SEEK_SET)  # important
         return self.size()
 
     def flush(self):
-- 
2.43.0


From 2be2e55a886a1d0de0d72956fab4691950d4e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 15/39] fix: do not erase the file when opening fails because
 of wrong text arguments

---
 src/rsfile/rsfile_factories.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 4fda687..810381a 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -284,6 +284,11 @@ def rsopen(
                 raw.lock_file(timeout=timeout)
 
             if extended_kwargs["truncate"]:
+                if not extended_kwargs["binary"]:
+                    # wrong text arguments must be detected before the content of the file gets lost
+                    if buffering == 0:
+                        raise defs.BadValueTypeError("can't have unbuffered text I/O")
+                    defs.io_module.TextIOWrapper(defs.io_module.BytesIO(), encoding, errors, newline)
                 # NOW that we've potentially locked the file, we NOW may truncate
                 raw.truncate(0)
 
-- 
2.43.0


From 4be6671cfa8a5265805af2494922a3ca767aac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 16/39] fix: descriptors kept open after the close of an
 inheritable stream are not inheritable anymore

---
 src/rsfile/rsfileio_unix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index b5ee1d9..acf824a 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -164,7 +164,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 with IntraProcessLockRegistry.mutex:
                     # safety mechanisms for fcntl() and its Unlock-All-On-Single-Close semantic
                     IntraProcessLockRegistry.add_unique_id_data(self._lock_registry_inode, self._lock_registry_descriptor)
-                    self._purge_pending_related_file_descriptors()
+                    if not self._purge_pending_related_file_descriptors() and self._inheritable:
+                        # the descriptor is kept open for now, but must not leak into subprocesses anymore
+                        os.set_inheritable(self._lock_registry_descriptor, False)
                     # we assume that there are chances for this to be the only handle pointing this precise file
                     IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
 
-- 
2.43.0


From e7353e995d3c2073d4e117ecce28d391af3e0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 17/39] fix: locking works in a child forked while another
 thread was using the lock registry

---
 src/rsfile/rsfile_registries.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index e5473c6..0472e47 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -87,6 +87,11 @@ class IntraProcessLockRegistryClass(object):
             self._lock_registry = {}
             self._original_pid = os.getpid()
 
+    def _reset_after_fork(self):
+        # the mutex might have been held, at fork time, by a thread which doesn't exist in the child process
+        self.mutex = threading.RLock()
+        self._check_forking()
+
     def _ensure_entry_exists(self, unique_id, create=False):
         """
         Returns True iff the entry existed before the call.
@@ -313,3 +318,6 @@ class IntraProcessLockRegistryClass(object):
 
 # single global instance
 IntraProcessLockRegistry = IntraProcessLockRegistryClass()
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=IntraProcessLockRegistry._reset_after_fork)
-- 
2.43.0


From bcd0a9827957c0d2651b948207b829d8b1a97515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 18/39] fix: unlocking a file of which nothing is locked raises
 RuntimeError, like any other wrong unlock

---
 src/rsfile/rsfile_registries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 0472e47..aded2af 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -157,7 +157,7 @@ class IntraProcessLockRegistryClass(object):
 
         # unprotected method - beware
         if not self._ensure_entry_exists(unique_id, create=False):
-            return True
+            raise RuntimeError("Trying to unlock a file area not owned by this handle")
 
         new_end = (new_start + new_length) if new_length else None  # None -> infinity
 
-- 
2.43.0


From 85830266dd16e5091a1d4ed682db85dae51c14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 19/39] fix: data queued in a thread-safe stream is not lost
 when the stream is collected without having been closed

---
 src/rsfile/rsfile_streams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index cdb9e65..73f134e 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -183,8 +183,8 @@ class RSThreadSafeWrapper(object):
             # print ("<<<<<<< WRAPPING METHOD", name)
             def _method_proxy(*args, **kwargs):
                 return self._secure_call(name, *args, **kwargs)
-            # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
-            setattr(self, name, _method_proxy)
+            # IMPORTANT : do not cache this caller in the object, the reference cycle would have the garbage collector
+            # close the raw stream before the data of its buffer is flushed
             return _method_proxy
 
         return attr
-- 
2.43.0


From 4ed9e67b31dfccbfa7bbaecc47281107b2fb712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 20/39] fix: write_to_file() and append_to_file() with
 buffering=0 write all the data, even if the kernel takes only a part of it at
 once

---
 src/rsfile/rsfile_utilities.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bcb6511..2494ef7 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -130,6 +130,17 @@ def read_from_file(
         return full_data
 
 
+def _write_whole_data(stream, data):
+    """
+    Writes all of *data*, even if the stream is unbuffered, and thus might take less data than asked for.
+    """
+    written = stream.write(data)
+    if not isinstance(data, str) and written < memoryview(data).nbytes:
+        data = memoryview(data).tobytes()
+        while written < len(data):
+            written += stream.write(data[written:])
+
+
 def write_to_file(
     filename,
     data,
@@ -171,7 +182,7 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_whole_data(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
@@ -216,7 +227,7 @@ def append_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_whole_data(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
-- 
2.43.0


From 8b82a997212c1342b73cb02c95369ded39047a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 21/39] fix: write_to_file(must_create=True) erases what
 another writer put in the new file before the lock was obtained

---
 src/rsfile/rsfile_utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 2494ef7..f3b3825 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -182,6 +182,9 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
+        if must_create:
+            # "E" is ignored when "C" is set, but another stream might have locked and filled the new file before us
+            myfile.truncate(0)
         _write_whole_data(myfile, data)
         myfile.flush()
         if sync:
-- 
2.43.0


From 83a9e6a3f5b39e8a8bd8b32f10e1aa2ee4b3a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 22/39] fix: truncate() of a buffered stream discards the
 read-ahead, so that erased bytes are not read anymore

---
 src/rsfile/rsfile_streams.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 73f134e..1e9083c 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -144,7 +144,9 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
-    pass
+    def truncate(self, pos=None):
+        self._reset_buffers()  # data read in advance might get erased, and must not be served afterwards
+        return super().truncate(pos)
 
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
-- 
2.43.0


From b0941bea7c609269fc374debafe5f6598521acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 23/39] fix: truncate() does not fail on an assertion when the
 file grows concurrently

---
 src/rsfile/rsfileio_abstract.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index aac1a61..1e97637 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -508,9 +508,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             self._inner_extend(size, zero_fill)
 
             current_size = self.size()
-            if current_size != size:  # no native operation worked for it. so we fill with zeros by ourselves
+            if current_size < size:  # no native operation worked for it. so we fill with zeros by ourselves
 
-                assert current_size < size
                 old_pos = self._inner_tell()
                 self._inner_seek(current_size, os.SEEK_SET)
                 try:
-- 
2.43.0


From 2227a0744eb38f4118881f4f1773b4948f846866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 24/39] fix: descriptors kept open after close are never
 inherited, even if wrapped

---
 src/rsfile/rsfileio_unix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index acf824a..b66608a 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -164,7 +164,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 with IntraProcessLockRegistry.mutex:
                     # safety mechanisms for fcntl() and its Unlock-All-On-Single-Close semantic
                     IntraProcessLockRegistry.add_unique_id_data(self._lock_registry_inode, self._lock_registry_descriptor)
-                    if not self._purge_pending_related_file_descriptors() and self._inheritable:
+                    if not self._purge_pending_related_file_descriptors():
                         # the descriptor is kept open for now, but must not leak into subprocesses anymore
                         os.set_inheritable(self._lock_registry_descriptor, False)
                     # we assume that there are chances for this to be the only handle pointing this precise file
-- 
2.43.0


From 5b9b952afe2cc591ea1a00371ed87a19b0d4ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 25/39] fix: zero-fill the gap when writing beyond the end of a
 file on Windows

_inner_extend() does nothing when zero-filling is asked for, since upper
levels are supposed to handle it, so the gap was left uninitialized.
---
 src/rsfile/rsfileio_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1748d62..452ffc9 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -396,7 +396,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         cur_pos = self._inner_tell()
         if cur_pos > self._inner_size():
             # we extend the file with zeros until current file pointer position
-            self._inner_extend(cur_pos, zero_fill=True)
+            self.truncate(cur_pos)
 
         if self._use_nonblocking_pipe_write_hack:
             # Non-blocking pipes have horrendous behaviour on Windows
-- 
2.43.0


From b8c12b678a4bd9ea3435f550aa6fa0bc45b98a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 26/39] fix: writing an empty buffer on Windows returns 0 and
 leaves the file as is

It returned None, which means that a non-blocking stream can't accept data
right now, and it extended the file up to the current position.
---
 src/rsfile/rsfileio_windows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 452ffc9..221d5f9 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -390,6 +390,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         #print(">> WIN32 WRITING BYTES", len(buffer))
 
+        if not len(buffer):
+            return 0  # nothing changes, especially not the file size
+
         if self._append:  # yep, no atomicity around here, as in truncate(), since FILE_APPEND_DATA can't be used
             self._inner_seek(0, defs.SEEK_END)
 
-- 
2.43.0


From 39412eaea02024bd0991fb8f2e9402d3c993173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 27/39] fix: open-ended locks starting after the second byte of
 a file on Windows

Their range exceeded 64 bits, so the kernel refused it, and blocking
locking attempts were retried forever.
---
 src/rsfile/rsfileio_windows.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 221d5f9..b1d8f32 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -432,7 +432,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             abs_offset = 0
 
         if not length:  # 0 or None
-            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = (utilities.MAX_DWORD, utilities.MAX_DWORD)
+            # up to the last lockable byte, since a range exceeding 64 bits is refused by the kernel
+            length = 2**64 - 1 - abs_offset
+            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
         else:
             (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
 
-- 
2.43.0


From 99703fa088592aca869dc405514e037f60f82873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 28/39] fix: the descriptor of a failed opening is closed at
 once, not when the exception gets collected

---
 src/rsfile/rsfileio_abstract.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 1e97637..ccdf0be 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -204,16 +204,22 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             assert self._lock_registry_inode is not None, self._lock_registry_inode
             assert self._lock_registry_descriptor is not None, self._lock_registry_descriptor
 
-        except OverflowError as e:
-            raise defs.BadValueTypeError(e)  # probably a too big filedescriptor number
+            if append:
+                try:
+                    self.seek(0, os.SEEK_END)  # required by unit tests, might raise if non-seekable file...
+                except OSError as exc:
+                    if exc.errno != errno.ESPIPE:
+                        raise
+                    # Else it's an Illegal Seek, probably because of a Pipe stream, so we let go
 
-        if append:
+        except BaseException as e:
             try:
-                self.seek(0, os.SEEK_END)  # required by unit tests, might raise if non-seekable file...
-            except OSError as exc:
-                if exc.errno != errno.ESPIPE:
-                    raise
-                # Else it's an Illegal Seek, probably because of a Pipe stream, so we let go
+                self.close()  # at once, not when this exception and the frames it holds get collected
+            except Exception:
+                pass
+            if isinstance(e, OverflowError):
+                raise defs.BadValueTypeError(e)  # probably a too big filedescriptor number
+            raise
 
     def __repr__(self):
         return "<%s name=%r mode='%s' origin='%s' closefd=%s>" % (
-- 
2.43.0


From a838c7e09e50b5eaa6663530e6a61f06fbe22987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 29/39] fix: a failing call on Windows does not leave the
 stream in a reference cycle, which could lose its buffered data

---
 src/rsfile/rsfileio_windows.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index b1d8f32..519a87f 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -44,7 +44,6 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             except win32.error as e:
                 # WARNING - this is not always a subclass of OSERROR
 
-                traceback = sys.exc_info()[2]
                 # print repr(e)str(e[1])+" - "+str(e[2
 
                 # pywin32's pywintypes.error instances have no errno
@@ -61,7 +60,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 else:
                     strerror = e.strerror.decode(WIN32_MSG_ENCODING, "replace")
 
-                raise IOError(errno, strerror, str(self._name)).with_traceback(traceback)
+                # NO local variable for the traceback here: this cycle would keep the stream and its buffers alive, until
+                # they get finalized in the wrong order by the garbage collector
+                raise IOError(errno, strerror, str(self._name)).with_traceback(e.__traceback__)
 
         return wrapper
 
-- 
2.43.0


From 1da29c9b225a8cdc9faeb5c936d08ae70f0ac268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 30/39] fix: C file descriptors leaked by every writable stream
 on Windows

---
 src/rsfile/rsfileio_windows.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 519a87f..660ea84 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -179,11 +179,12 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         self._use_nonblocking_pipe_write_hack = False
         #print(">>> Detecting _use_nonblocking_pipe_write_hack!", write, BLOCKING_MODES_ENABLED)
         if write and BLOCKING_MODES_ENABLED:
-            _fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
+            if self._fileno is None:
+                # this C file descriptor owns the handle from now on, so it has to be kept until we close it
+                self._fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
             try:
-                if not os.get_blocking(_fileno):
+                if not os.get_blocking(self._fileno):
                     #print(">>> We want to use _use_nonblocking_pipe_write_hack!")
-                    self._fileno = _fileno
                     self._use_nonblocking_pipe_write_hack = True
             except OSError:
                 pass  # probably not a PIPE
-- 
2.43.0


From ca2017ec41ef1e123d08b9db290a6a27ca11472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 31/39] fix: support C file descriptor 0 on Windows like any
 other

---
 src/rsfile/rsfileio_windows.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 660ea84..2e79ca7 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -94,7 +94,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         permissions,
     ):
 
-        assert not (fileno and handle), fileno and handle
+        assert fileno is None or handle is None, (fileno, handle)
 
         # # # real opening of the file stream # # #
         if handle is not None:
@@ -300,7 +300,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # NEVER use flag os.O_TEXT, we're in raw IO here !
             self._fileno = win32._open_osfhandle(self._handle, flags)
 
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
@@ -407,7 +407,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # Non-blocking pipes have horrendous behaviour on Windows
             # See https://github.com/python/cpython/issues/101881
             # So we rely on CPython hacks to force-write data into pipe
-            assert self._fileno, self._fileno
+            assert self._fileno is not None, self._fileno
             try:
                 bytes_written = os.write(self._fileno, buffer)
             except BlockingIOError:
-- 
2.43.0


From 3362568388ebdee892cfb54eb52610245348c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 32/39] fix: locking an invalid handle raises at once on
 Windows, instead of retrying for ever

---
 src/rsfile/rsfileio_windows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 2e79ca7..4e9eacc 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -29,6 +29,9 @@ BLOCKING_MODES_ENABLED = hasattr(os, "set_blocking")  # New in python 3.12 for W
 
 
 class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
+
+    _permanent_lock_errors = (errno.EBADF,)  # EINVAL here is what unknown errors are turned into
+
     __POSITION_REFERENCES = {
         defs.SEEK_SET: win32.FILE_BEGIN,
         defs.SEEK_CUR: win32.FILE_CURRENT,
-- 
2.43.0


From 41ba42143a3ddeff29ecb30d5be9151acfd319d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 33/39] fix: C file descriptor leaked by each query of times or
 identity with pywin32

---
 src/rsfile/rsbackend/windows_pywin32.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/windows_pywin32.py b/src/rsfile/rsbackend/windows_pywin32.py
index 3e62d6f..7d06452 100644
--- a/src/rsfile/rsbackend/windows_pywin32.py
+++ b/src/rsfile/rsbackend/windows_pywin32.py
@@ -87,7 +87,15 @@ def GetFileInformationByHandle(handle):
     ##print(">>>>>>", info.__dict__)
 
     # to workaround bugs, we don't deal with "PyTime" objects, we fallback to stdlib...
-    mystat = os.fstat(_open_osfhandle(handle, 0))
+    # (on a duplicate of the handle, since closing a C file descriptor closes its handle too)
+    process = win32api.GetCurrentProcess()
+    duplicate = win32api.DuplicateHandle(process, handle, process, 0, False, win32con.DUPLICATE_SAME_ACCESS)
+    fileno = _open_osfhandle(int(duplicate), 0)
+    duplicate.Detach()  # it now belongs to the C file descriptor
+    try:
+        mystat = os.fstat(fileno)
+    finally:
+        os.close(fileno)
     info.ftCreationTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_ctime))
     info.ftLastAccessTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_atime))
     info.ftLastWriteTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_mtime))
-- 
2.43.0


From a8c1cb364f2cf98e5aec25245097b7cfd8960806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:49 +0000
Subject: [PATCH 34/39] fix: locks of a text stream could not be released while
 its lines were iterated over

---
 src/rsfile/rsfile_streams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 1e9083c..94a6ab0 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -101,7 +101,8 @@ class _text_forwarder_mixin(object):
         return remover
 
     def unlock_file(self, *args, **kwargs):
-        self._reset_buffers()
+        if self._telling:  # else lines are being iterated over, positions are not available, but locks get released
+            self._reset_buffers()
         return self.buffer.unlock_file(*args, **kwargs)
 
     def readinto(self, buffer):  # to please test suite...
-- 
2.43.0


From 63b69981b535f066f3efc1ca9ae1805f4a60407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:27 +0000
Subject: [PATCH 35/39] fix: files whose names are not decodable (surrogate
 escapes, as os.listdir() returns them) could not be opened

---
 src/rsfile/rsfileio_unix.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index b66608a..fb5aa1d 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -102,10 +102,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         else:  # we open the file with low level posix IO - the unix "open()"  function
 
             if isinstance(path, str):
-                strname = path.encode(
-                    sys.getfilesystemencoding()
-                )  # let's take no risks - and do not use locale.getpreferredencoding(
-                # ) here
+                strname = os.fsencode(path)  # supports names which are not decodable, as returned by os.listdir()
             else:
                 strname = path
 
-- 
2.43.0


From bc66d624a64246bb3a85dffdeb884a4886a8a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:27 +0000
Subject: [PATCH 36/39] fix: wrapping a descriptor with the patched io.FileIO
 in mode w erased the file

---
 src/rsfile/rsfile_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index f3b3825..a42a12d 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -34,7 +34,7 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"]:
+        if self.seekable() and extended_kwargs["truncate"] and raw_kwargs["fileno"] is None:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
-- 
2.43.0


From ebe5fb38a584dd057de3d2553f7e7fb558e104ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:27 +0000
Subject: [PATCH 37/39] fix: the name of a stream opened with an opener was the
 descriptor, not the path

---
 src/rsfile/rsfile_factories.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 810381a..590244e 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -277,6 +277,9 @@ def rsopen(
     result = raw
     try:
 
+        if opener:
+            raw.name = name  # like in the stdlib, not the file descriptor
+
         if raw.seekable():  # thus we skip PIPES silently...
 
             if locking:
-- 
2.43.0


From ac9a713c7ebdbe59bce6d52fd15f9bf7521abb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 38/39] fix: the patched open() and FileIO refused or
 misinterpreted arguments passed by the names or positions of the builtins

---
 src/rsfile/rsfile_utilities.py | 39 ++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index a42a12d..5ccaea3 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -5,15 +5,40 @@ from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
 
-def BUILTIN_OPEN_FUNC_REPLACEMENT(*args, **kwargs):
+def BUILTIN_OPEN_FUNC_REPLACEMENT(
+    file=None,
+    mode="r",
+    buffering=-1,
+    encoding=None,
+    errors=None,
+    newline=None,
+    closefd=True,
+    opener=None,
+    **kwargs
+):
     """
     Replacement for the built-in open() function,
-    with rectified default arguments, and
-    tolerant mode for str/unicode mixes in python2.
+    with the same names and order of arguments,
+    and rectified defaults for the arguments specific to rsopen().
     """
-    params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
+    params = dict(
+        name=file,
+        mode=mode,
+        buffering=buffering,
+        encoding=encoding,
+        errors=errors,
+        newline=newline,
+        closefd=closefd,
+        opener=opener,
+        handle=None,
+        locking=False,
+        timeout=0,
+        thread_safe=False,
+        mutex=None,
+        permissions=0o777,
+    )
     params.update(kwargs)
-    stream = rsopen(*args, **params)
+    stream = rsopen(**params)
     return stream
 
 
@@ -28,9 +53,9 @@ class RSFileIOWrapper(RSFileIO):
     Interface to rsFile accepting the limited "fopen()" modes (no file locking, no O_EXCL|O_CREAT semantic...)
     """
 
-    def __init__(self, name, mode="r", closefd=True):
+    def __init__(self, file, mode="r", closefd=True):
 
-        (raw_kwargs, extended_kwargs) = parse_standard_args(name, mode, None, None, closefd)
+        (raw_kwargs, extended_kwargs) = parse_standard_args(file, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-- 
2.43.0


From 15c6e33759ac7b7e9e87dc188dd731f7fb4e2417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 39/39] fix: files created through the patched open() and
 FileIO were executable

---
 src/rsfile/rsfile_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 5ccaea3..887e428 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -35,7 +35,7 @@ def BUILTIN_OPEN_FUNC_REPLACEMENT(
         timeout=0,
         thread_safe=False,
         mutex=None,
-        permissions=0o777,
+        permissions=0o666,
     )
     params.update(kwargs)
     stream = rsopen(**params)
@@ -58,6 +58,7 @@ class RSFileIOWrapper(RSFileIO):
         (raw_kwargs, extended_kwargs) = parse_standard_args(file, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
+        raw_kwargs["permissions"] = 0o666  # like the stdlib
         RSFileIO.__init__(self, **raw_kwargs)
         if self.seekable() and extended_kwargs["truncate"] and raw_kwargs["fileno"] is None:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
-- 
2.43.0

