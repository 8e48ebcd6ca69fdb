From 3f0493bb84adf6bda403afdbc45edecb64319fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 01/56] fix: wake up threads blocked in lock_file() when the
 lock holder's stream gets closed

---
 src/rsfile/rsfile_registries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 890687a..b1e2573 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -221,6 +221,8 @@ class IntraProcessLockRegistryClass(object):
                     remaining_locks.append(record)
 
             self._lock_registry[unique_id][1] = remaining_locks
+            if removed_locks:
+                self._lock_registry[unique_id][0].notify_all()  # waiters may now get their lock
 
             return removed_locks
 
-- 
2.43.0


From c360bba07c133a3d1259667c2d1c0dbe9d32c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 02/56] fix: release the lock when the with-block of
 lock_file() raises an exception

---
 src/rsfile/rsfileio_abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dab493f..bb72d8e 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -527,9 +527,11 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     @contextmanager
     def _lock_remover(self, length, offset, whence):
         # we do nothing on __enter__()
-        yield
-        # we unlock on __exit__()
-        self.unlock_file(length=length, offset=offset, whence=whence)
+        try:
+            yield
+        finally:
+            # we unlock on __exit__(), even if the block raised
+            self.unlock_file(length=length, offset=offset, whence=whence)
 
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
-- 
2.43.0


From dff8674f04dc45da43f76f9470c92028443f1d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 03/56] fix: flush buffered data before the with-block of
 lock_file() releases its lock

---
 src/rsfile/rsfile_streams.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 58b5881..c3d4cbe 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -5,6 +5,7 @@ import functools
 import multiprocessing
 import os
 import threading
+from contextlib import contextmanager
 
 from . import rsfile_definitions as defs
 
@@ -30,6 +31,16 @@ def __rsfile_stream_repr__(self):
     else:
         return "<%s name=%r>" % (clsname, name)
 
+@contextmanager
+def _flush_before_unlocking(stream, lock_remover):
+    # buffered data must reach the file while it's still locked
+    with lock_remover:
+        try:
+            yield
+        finally:
+            stream.flush()
+
+
 class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
@@ -50,7 +61,7 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.raw.lock_file(*args, **kwargs)
+        return _flush_before_unlocking(self, self.raw.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -94,7 +105,7 @@ class _text_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.buffer.lock_file(*args, **kwargs)
+        return _flush_before_unlocking(self, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
-- 
2.43.0


From 37b8beaf01b3b6b4a05bb1481e07547599643e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 04/56] fix: hold the mutex of thread-safe streams on first
 calls, iterations and lock releases

---
 src/rsfile/rsfile_streams.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index c3d4cbe..9ec06cb 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -192,11 +192,28 @@ class RSThreadSafeWrapper(object):
                 return self._secure_call(name, *args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
+            return _method_proxy
 
         return attr
 
+    def lock_file(self, *args, **kwargs):
+        return self._secure_lock_remover(self._secure_call("lock_file", *args, **kwargs))
+
+    @contextmanager
+    def _secure_lock_remover(self, lock_remover):
+        lock_remover.__enter__()
+        try:
+            yield
+        finally:
+            with self.mutex:
+                lock_remover.__exit__(None, None, None)
+
     def __iter__(self):
-        return iter(self.wrapped_stream)
+        self._checkClosed()
+        return self
+
+    def __next__(self):
+        return self._secure_call("__next__")
 
     def __str__(self):
         return "Thread Safe Wrapper around %s" % self.wrapped_stream
-- 
2.43.0


From a4d1740e03fd46c89079c92c24afc8abbded35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 05/56] fix: don't leak a descriptor when refusing to open a
 directory

---
 src/rsfile/rsfileio_unix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 7e2f987..76150f7 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -125,6 +125,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # on unix we must prevent the opening of directories, but not named fifos or other special files
             stats = unix.fstat(self._fileno).st_mode
             if stat.S_ISDIR(stats):
+                unix.close(self._fileno)
                 raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
 
             # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
-- 
2.43.0


From 01cf1361d7a0717a0563926c0f6cd98c3e418b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 06/56] fix: report lock_file() errors which are not lock
 contentions, instead of retrying forever

---
 src/rsfile/rsfileio_abstract.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index bb72d8e..76e61cb 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -562,6 +562,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             raise IOError("Can't obtain exclusive lock on non-writable stream, or shared lock on non-readable stream.")
 
         abs_offset = self._convert_relative_offset_to_absolute(offset, whence)
+        if abs_offset < 0:
+            raise defs.BadValueTypeError("can't lock bytes before the beginning of the file")
+
         blocking = timeout is None  # here, it means "forever waiting for the lock"
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
@@ -628,6 +631,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         success = True  # we leave the two loops
 
                     except EnvironmentError as e:
+                        if e.errno in (errno.EINVAL, errno.EOVERFLOW, errno.EBADF):
+                            raise  # not a lock contention, retrying would be useless
                         check_timeout(e)
 
             finally:
-- 
2.43.0


From b83d61f4cc098b323d0e68a45b24cc0921b0b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 07/56] fix: properly handle the wrapping of file descriptor 0

---
 src/rsfile/rsfile_factories.py  | 6 +++---
 src/rsfile/rsfile_registries.py | 2 +-
 src/rsfile/rsfileio_abstract.py | 2 +-
 src/rsfile/rsfileio_unix.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f058fa4..4fda687 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -238,7 +238,7 @@ def rsopen(
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
     if opener:
-        if raw_kwargs["fileno"]:
+        if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
             name, mode
@@ -250,7 +250,7 @@ def rsopen(
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] or raw_kwargs["handle"]:
+        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -298,7 +298,7 @@ def rsopen(
             buffering = defs.DEFAULT_BUFFER_SIZE
             # do not trigger the libc compatibility layer on windows,
             # since anyway it seems to have no st_blksize...
-            if raw._fileno:
+            if raw._fileno is not None:
                 try:
                     bs = os.fstat(raw._fileno).st_blksize
                 except (os.error, AttributeError):
diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index b1e2573..6c15a32 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -249,7 +249,7 @@ class IntraProcessLockRegistryClass(object):
 
     def add_unique_id_data(self, unique_id, data):
         assert unique_id, unique_id
-        assert data, data
+        assert data is not None, data
         with self.mutex:
             self._check_forking()
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 76e61cb..9afdfcc 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -170,7 +170,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 # we bypass Rsfile for file descriptors that are pipes, devices, directories, symlinks etc.
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
-                    assert fileno or handle, (fileno, handle)  # it must NOT be a newly created file object, else bug
+                    assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 76150f7..37fb0ba 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -189,11 +189,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # print("FSYNC_UNIX_DONE")
 
     def _inner_fileno(self):
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-        assert self._handle
+        assert self._handle is not None
         return self._handle
 
     @_unix_error_converter
-- 
2.43.0


From 0804d65ccf467a9aaf5ab3eaac625983dd8ab7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 08/56] fix: make readinto() return None when a non-blocking
 raw stream has no data available

---
 src/rsfile/rsfileio_abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 9afdfcc..86d2d2f 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -400,8 +400,10 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             buffer = memoryview(buffer).cast("B")
 
         mybytes = self._inner_read(len(buffer))
-        byteslen = len(mybytes)
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
+        if mybytes is None:
+            return None  # non-blocking stream without available data
+        byteslen = len(mybytes)
 
         if isinstance(buffer, array):
             typecode = b"b" if (sys.version_info[:2] < (3, 0)) else "b"  # typecode weirdness...
-- 
2.43.0


From 8b704825179d1440e22cbc52f21b9700bb8c797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 09/56] fix: don't truncate file descriptors wrapped by the
 FileIO replacement

---
 src/rsfile/rsfile_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bcb6511..8d5909d 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -34,7 +34,7 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"]:
+        if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
-- 
2.43.0


From 914cf7d06e5deee380bc2355137235a6dca099a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 10/56] fix: keep shared locks of other streams of the process
 when one of them gets unlocked or closed

---
 src/rsfile/rsfile_registries.py | 28 ++++++++++++++++++++++++++++
 src/rsfile/rsfileio_abstract.py | 13 +++++++++----
 src/rsfile/rsfileio_unix.py     | 20 ++++++++++++++++----
 3 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 6c15a32..e3ec2a6 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -226,6 +226,34 @@ class IntraProcessLockRegistryClass(object):
 
             return removed_locks
 
+    def get_unlocked_ranges(self, unique_id, length, offset):
+        """
+        Returns the list of (length, offset) parts of the range which are not covered by any registered lock.
+        """
+        assert unique_id, unique_id
+        with self.mutex:
+
+            self._check_forking()
+
+            end = (offset + length) if length else None  # None -> infinity
+            locks = self._lock_registry[unique_id][1] if unique_id in self._lock_registry else []
+
+            ranges = []
+            for (_handle, _shared, lock_start, lock_end) in sorted(locks, key=lambda record: record[2]):
+                if end is not None and lock_start >= end:
+                    break
+                if lock_start > offset:
+                    ranges.append((lock_start - offset, offset))
+                if lock_end is None:
+                    return ranges
+                offset = max(offset, lock_end)
+
+            if end is None:
+                ranges.append((None, offset))
+            elif offset < end:
+                ranges.append((end - offset, offset))
+            return ranges
+
     def try_deleting_unique_id_entry(self, unique_id):
         """
         Returns True iff an entry existed and could be deleted.
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 86d2d2f..e985ead 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -639,10 +639,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
             finally:
                 if not success:
-                    res = IntraProcessLockRegistry.unregister_file_lock(
-                        self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
-                    )
-                    assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                    with IntraProcessLockRegistry.mutex:
+                        res = IntraProcessLockRegistry.unregister_file_lock(
+                            self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+                        )
+                        assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                        self._inner_file_lock_aborted(length, abs_offset)
 
         return self._lock_remover(length, abs_offset, os.SEEK_SET)
 
@@ -734,6 +736,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     def _inner_file_unlock(self, length, abs_offset):
         self._unsupported("file_unlock")
 
+    def _inner_file_lock_aborted(self, length, abs_offset):
+        pass  # called when a lock attempt fails after its registration in current process
+
 
 assert RSFileIOAbstract.__del__ is defs.io_module.IOBase.__del__  # Ensure the default implementation is used
 defs.io_module.RawIOBase.register(RSFileIOAbstract)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 37fb0ba..750b614 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -295,10 +295,22 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     @_unix_error_converter
     def _inner_file_unlock(self, length, abs_offset):
 
-        if length is None:
-            length = 0  # that's the "infinity" value for fcntl
-
         try:
-            unix.lockf(self._fileno, unix.LOCK_UN, length, abs_offset, os.SEEK_SET)
+            # fcntl() locks belong to the whole process, so we must only release the bytes which are
+            # not also (share-)locked through other file descriptors
+            for (_length, _offset) in IntraProcessLockRegistry.get_unlocked_ranges(
+                self._lock_registry_inode, length, abs_offset
+            ):
+                if _length is None:
+                    _length = 0  # that's the "infinity" value for fcntl
+                unix.lockf(self._fileno, unix.LOCK_UN, _length, _offset, os.SEEK_SET)
         finally:
             self._purge_pending_related_file_descriptors()
+
+    def _inner_file_lock_aborted(self, length, abs_offset):
+        # bytes which were (share-)locked through other file descriptors might have been left locked on behalf of this
+        # attempt, if these other locks got released in the meantime
+        try:
+            self._inner_file_unlock(length, abs_offset)
+        except EnvironmentError:
+            pass  # abnormal range
-- 
2.43.0


From ef47a801b940e28f7e008d83e0646cbb3bfbf5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 11/56] fix: support the zero_fill argument of truncate() on
 buffered and text streams

---
 src/rsfile/rsfile_streams.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 9ec06cb..ca99a1c 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -55,6 +55,14 @@ class _buffer_forwarder_mixin(object):
         self.flush()
         return self.raw.size()
 
+    def truncate(self, size=None, zero_fill=True):
+        if zero_fill:
+            return super().truncate(size)
+        self.flush()
+        if size is None:
+            size = self.tell()
+        return self.raw.truncate(size, zero_fill)
+
     def sync(self, *args, **kwargs):
         self.flush()
         return self.raw.sync(*args, **kwargs)
@@ -99,6 +107,14 @@ class _text_forwarder_mixin(object):
         self.flush()  # security
         return self.buffer.size()
 
+    def truncate(self, size=None, zero_fill=True):
+        if zero_fill:
+            return super().truncate(size)
+        self.flush()
+        if size is None:
+            size = self.tell()
+        return self.buffer.truncate(size, zero_fill)
+
     def sync(self, *args, **kwargs):
         self.flush()  # security
         return self.buffer.sync(*args, **kwargs)
@@ -151,7 +167,10 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
-    pass
+    def truncate(self, size=None, zero_fill=True):
+        if zero_fill:
+            return super().truncate(size)
+        return RSBufferedWriter.truncate(self, size, zero_fill)
 
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
-- 
2.43.0


From cbd08171bc69939a1ba24eb761157639374ec96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 12/56] fix: give integer open flags to the opener of rsopen(),
 like io.open()

---
 src/rsfile/rsfile_factories.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 4fda687..7cafe7a 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -241,7 +241,7 @@ def rsopen(
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
-            name, mode
+            name, _compute_opener_flags(raw_kwargs, extended_kwargs)
         )  # we give it the original "name" as parameter, not the normalized path
         if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
             raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
@@ -346,6 +346,33 @@ if sys.version_info >= (3, 10):
     rsopen = staticmethod(rsopen)
 
 
+def _compute_opener_flags(raw_kwargs, extended_kwargs):
+    """Returns the same os.O_* flags as those given by io.open() to its opener."""
+
+    if raw_kwargs["read"] and raw_kwargs["write"]:
+        flags = os.O_RDWR
+    elif raw_kwargs["write"]:
+        flags = os.O_WRONLY
+    else:
+        flags = os.O_RDONLY
+
+    if raw_kwargs["append"]:
+        flags |= os.O_APPEND
+    if raw_kwargs["must_create"]:
+        flags |= os.O_CREAT | os.O_EXCL
+    elif not raw_kwargs["must_not_create"]:
+        flags |= os.O_CREAT
+    if extended_kwargs["truncate"]:
+        flags |= os.O_TRUNC
+    if raw_kwargs["synchronized"]:
+        flags |= getattr(os, "O_SYNC", 0)
+    if not raw_kwargs["inheritable"]:
+        flags |= getattr(os, "O_CLOEXEC", 0) or getattr(os, "O_NOINHERIT", 0)
+    flags |= getattr(os, "O_BINARY", 0)
+
+    return flags
+
+
 def parse_standard_args(name, mode, fileno, handle, closefd):
     # note: name can also be a fileno here, for retrocompatibility...
 
-- 
2.43.0


From cc0d059c07d867ed9b47a61eca05f7461132bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 13/56] fix: call the opener of rsopen() only once arguments
 are validated, so as not to leak its descriptor

---
 src/rsfile/rsfile_factories.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 7cafe7a..2536858 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -237,22 +237,9 @@ def rsopen(
     is_interprocess = raw_kwargs["inheritable"] and hasattr(os, "fork")
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
-    if opener:
-        if raw_kwargs["fileno"] is not None:
-            raise defs.BadValueTypeError("can't provide both fileno and opener")
-        raw_kwargs["fileno"] = opener(
-            name, _compute_opener_flags(raw_kwargs, extended_kwargs)
-        )  # we give it the original "name" as parameter, not the normalized path
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
-            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        raw_kwargs["path"] = None  # irrelevant in this case
-
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
-            # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
-            extended_kwargs["truncate"] = False
 
     if extended_kwargs["binary"] and extended_kwargs["text"]:
         raise defs.BadValueTypeError("can't have text and binary mode at once")
@@ -271,6 +258,21 @@ def rsopen(
             2,
         )
 
+    # all arguments have been checked, so the descriptor won't be lost
+    if opener:
+        if raw_kwargs["fileno"] is not None:
+            raise defs.BadValueTypeError("can't provide both fileno and opener")
+        raw_kwargs["fileno"] = opener(
+            name, _compute_opener_flags(raw_kwargs, extended_kwargs)
+        )  # we give it the original "name" as parameter, not the normalized path
+        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
+            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
+        raw_kwargs["path"] = None  # irrelevant in this case
+
+    if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
+        # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
+        extended_kwargs["truncate"] = False
+
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
     raw = RSFileIO(**raw_kwargs)
-- 
2.43.0


From 45deec766462e8e437bbb56ddb84ee74d5dde861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 14/56] fix: accept all kinds of buffers in raw writes,
 whatever their item size

---
 src/rsfile/rsfileio_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index e985ead..29807a2 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -440,6 +440,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 buffer = buffer.tobytes()  # New API
             except AttributeError:
                 buffer = buffer.tostring()
+        elif not isinstance(buffer, (bytes, bytearray)):
+            buffer = memoryview(buffer).tobytes()  # the length of other buffers isn't necessarily in bytes
 
         res = self._inner_write(buffer)
         # assert res == len(buffer), str(res, len(buffer)) # NOOO - we might have less than that actually if disk full !
-- 
2.43.0


From 6a86d7919fe035da4d66b0d424a6d1977f8322b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 15/56] fix: don't start beyond the end of file when it's
 erased and opened in append mode

---
 src/rsfile/rsfile_factories.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 2536858..4a1da37 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -288,6 +288,7 @@ def rsopen(
             if extended_kwargs["truncate"]:
                 # NOW that we've potentially locked the file, we NOW may truncate
                 raw.truncate(0)
+                raw.seek(0)  # in append mode, we were at the end of the erased content
 
         if buffering is None:
             buffering = -1
-- 
2.43.0


From 90ab4eb04f9b24e3150f4d9df39dc51122967224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 16/56] fix: don't create reference cycles in thread-safe
 streams, their buffered data got lost when abandoned

---
 src/rsfile/rsfile_streams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index ca99a1c..0528c60 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -207,8 +207,12 @@ class RSThreadSafeWrapper(object):
 
         if not name.startswith("_") and callable(attr):
             # print ("<<<<<<< WRAPPING METHOD", name)
+            # no reference cycle here, else abandoned streams would only be destroyed by the garbage collector,
+            # in an order which might lose their buffered data
+            wrapped_stream, mutex = self.wrapped_stream, self.mutex
             def _method_proxy(*args, **kwargs):
-                return self._secure_call(name, *args, **kwargs)
+                with mutex:
+                    return getattr(wrapped_stream, name)(*args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
             return _method_proxy
-- 
2.43.0


From 5dbaf90190491dfecdfdac6bbb22070dc66cee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 17/56] fix: make truncate() properly write zeros by itself
 when the native call doesn't extend files

---
 src/rsfile/rsfileio_abstract.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 29807a2..5bc3447 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -488,14 +488,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 old_pos = self._inner_tell()
                 self._inner_seek(current_size, os.SEEK_SET)
                 bytes_to_write = size - current_size
-                (q, r) = divmod(bytes_to_write, defs.DEFAULT_BUFFER_SIZE)
-
-                for _ in range(q):
-                    padding = b"\0" * defs.DEFAULT_BUFFER_SIZE
-                    self._inner_write(padding)
-                count = self._inner_write(b"\0" * r)
-                assert count == r, (count, r)  # no blocking writes for files, theoretically...
-                self._inner_seek(old_pos)  # important
+                while bytes_to_write:
+                    count = self._inner_write(b"\0" * min(bytes_to_write, defs.DEFAULT_BUFFER_SIZE))
+                    if not count:  # no blocking writes for files, theoretically...
+                        raise IOError(errno.EIO, "Can't extend file up to %d bytes" % size)
+                    bytes_to_write -= count  # beware of partial writes
+                self._inner_seek(old_pos, os.SEEK_SET)  # important
         return self.size()
 
     def flush(self):
-- 
2.43.0


From ff7739409183e272998dd867c477dad5e3b53154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 18/56] fix: don't re-enable the tell() of text streams in the
 middle of their iteration, size(), sync() and lock_file() made it wrong

---
 src/rsfile/rsfile_streams.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 0528c60..35d4695 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -32,13 +32,13 @@ def __rsfile_stream_repr__(self):
         return "<%s name=%r>" % (clsname, name)
 
 @contextmanager
-def _flush_before_unlocking(stream, lock_remover):
+def _flush_before_unlocking(flush, lock_remover):
     # buffered data must reach the file while it's still locked
     with lock_remover:
         try:
             yield
         finally:
-            stream.flush()
+            flush()
 
 
 class _buffer_forwarder_mixin(object):
@@ -69,7 +69,7 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return _flush_before_unlocking(self, self.raw.lock_file(*args, **kwargs))
+        return _flush_before_unlocking(self.flush, self.raw.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -97,6 +97,12 @@ class _text_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
 
+    def _flush_data(self):
+        # flushing a text stream makes tell() usable again, but its result is wrong in the middle of an iteration
+        telling = self._telling
+        self.flush()
+        self._telling = telling
+
     def unique_id(self):
         return self.buffer.unique_id()
 
@@ -104,7 +110,7 @@ class _text_forwarder_mixin(object):
         return self.buffer.times()
 
     def size(self):
-        self.flush()  # security
+        self._flush_data()  # security
         return self.buffer.size()
 
     def truncate(self, size=None, zero_fill=True):
@@ -116,12 +122,12 @@ class _text_forwarder_mixin(object):
         return self.buffer.truncate(size, zero_fill)
 
     def sync(self, *args, **kwargs):
-        self.flush()  # security
+        self._flush_data()  # security
         return self.buffer.sync(*args, **kwargs)
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return _flush_before_unlocking(self, self.buffer.lock_file(*args, **kwargs))
+        return _flush_before_unlocking(self._flush_data, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
-- 
2.43.0


From 91eb772f3195b7b4ebb3932d9e7caa267a37ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 19/56] fix: don't lose data in unbuffered write_to_file() and
 append_to_file(), when raw writes are partial

---
 src/rsfile/rsfile_utilities.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 8d5909d..f84e588 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import errno
+
 from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
@@ -130,6 +132,18 @@ def read_from_file(
         return full_data
 
 
+def _write_fully(myfile, data):
+    if not isinstance(myfile, RSFileIO):
+        myfile.write(data)
+        return
+    data = memoryview(data).tobytes()
+    while data:  # if unbuffered, might write only part of the data, so we have to "loop while"
+        count = myfile.write(data)
+        if not count:
+            raise IOError(errno.EAGAIN, "File can't be written without blocking")
+        data = data[count:]
+
+
 def write_to_file(
     filename,
     data,
@@ -171,7 +185,7 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_fully(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
@@ -216,7 +230,7 @@ def append_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_fully(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
-- 
2.43.0


From b52b164b2dd5087728e51ca3db16a31eaf57798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 20/56] fix: accept the undecodable file names given by
 os.listdir() and the like, as io.open() does

---
 src/rsfile/rsfileio_unix.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 750b614..02a2791 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -89,13 +89,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         else:  # we open the file with low level posix IO - the unix "open()"  function
 
-            if isinstance(path, str):
-                strname = path.encode(
-                    sys.getfilesystemencoding()
-                )  # let's take no risks - and do not use locale.getpreferredencoding(
-                # ) here
-            else:
-                strname = path
+            # let's take no risks - and do not use locale.getpreferredencoding() here
+            strname = os.fsencode(path)  # supports undecodable names too, like those of os.listdir()
 
             flags = 0  # Note that unix.O_LARGEFILE is actually irrelevant
 
-- 
2.43.0


From 90e68990285f6caba9b3a19ea544bea97d9b37fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 21/56] fix: make readinto() of buffered streams support
 partial reads, it raised ValueError

---
 src/rsfile/rsfile_streams.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 35d4695..229ec2d 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -162,6 +162,18 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def _readinto(self, buf, read1):
+        # the stdlib version raises ValueError when several partial reads are needed to fill the buffer
+        count = super()._readinto(buf, read1=True)
+        if not read1 and count:
+            target = memoryview(buf).cast("B")
+            while count < len(target):
+                extra = super()._readinto(target[count:], read1=True)
+                if not extra:
+                    break
+                count += extra
+        return count
+
 
 class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
     def writable(self):  # drop when py3.5 not supported anymore
-- 
2.43.0


From 14fc406542cfe8016a13ba3288d176a8d62ce754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 22/56] fix: close the descriptor of streams even when the
 release of their locks fails

---
 src/rsfile/rsfileio_abstract.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 5bc3447..8e9bbf6 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -214,17 +214,18 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
                 with IntraProcessLockRegistry.mutex:
 
-                    # We are careful, in case object initialization failed
-                    if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
-                        for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
-                            self._lock_registry_inode, self._lock_registry_descriptor
-                        ):
-                            # print (">>>>>>>> ", (handle, shared, start, end))
-                            length = None if end is None else (end - start)
-                            self._inner_file_unlock(length, start)
-
-                    # Mark the raw stream as closed, even if some operations failed
-                    self._inner_close_streams()  # Might raise OverflowError
+                    try:
+                        # We are careful, in case object initialization failed
+                        if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
+                            for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
+                                self._lock_registry_inode, self._lock_registry_descriptor
+                            ):
+                                # print (">>>>>>>> ", (handle, shared, start, end))
+                                length = None if end is None else (end - start)
+                                self._inner_file_unlock(length, start)
+                    finally:
+                        # Mark the raw stream as closed, even if some operations failed
+                        self._inner_close_streams()  # Might raise OverflowError
 
     '''
     def __del__(self):
-- 
2.43.0


From c62a9b69ba92bf7a525cac27b90980a3771bea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 23/56] fix: close all deferred descriptors even if some of
 their closings fail

---
 src/rsfile/rsfileio_unix.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 02a2791..0f4fff9 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -11,6 +11,7 @@ import locale
 import os
 import stat
 import sys
+from contextlib import ExitStack
 
 from . import rsfile_definitions as defs
 from . import rsfileio_abstract
@@ -53,9 +54,10 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             res = IntraProcessLockRegistry.unique_id_has_locks(self._lock_registry_inode)
             if not res:  # no more locks left for that unique_id
                 data_list = IntraProcessLockRegistry.remove_unique_id_data(self._lock_registry_inode)
-                for fd in data_list:  # we close all pending file descriptors (which were left opened to prevent
-                    # fcntl() lock autoremoving)
-                    unix.close(fd)
+                with ExitStack() as closers:  # we close all pending file descriptors (which were left opened to prevent
+                    # fcntl() lock autoremoving), even if some of these operations fail
+                    for fd in data_list:
+                        closers.callback(unix.close, fd)
 
             return not res
 
-- 
2.43.0


From d3396715c76de694090b61b56733e8f9d13181f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 24/56] fix: properly handle the wrapping of file descriptor 0
 on Windows too

---
 src/rsfile/rsfileio_windows.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1748d62..76810e1 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -93,7 +93,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         permissions,
     ):
 
-        assert not (fileno and handle), fileno and handle
+        assert fileno is None or handle is None, (fileno, handle)
 
         # # # real opening of the file stream # # #
         if handle is not None:
@@ -298,7 +298,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # NEVER use flag os.O_TEXT, we're in raw IO here !
             self._fileno = win32._open_osfhandle(self._handle, flags)
 
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
@@ -402,7 +402,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # Non-blocking pipes have horrendous behaviour on Windows
             # See https://github.com/python/cpython/issues/101881
             # So we rely on CPython hacks to force-write data into pipe
-            assert self._fileno, self._fileno
+            assert self._fileno is not None
             try:
                 bytes_written = os.write(self._fileno, buffer)
             except BlockingIOError:
-- 
2.43.0


From 02ff8fc1335e3a6516e53b748f0195c5eab728f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 25/56] fix: fill with zeros, on Windows too, the gap left by
 writes beyond the end of file

---
 src/rsfile/rsfileio_windows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 76810e1..8a8dc2a 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -394,9 +394,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             self._inner_seek(0, defs.SEEK_END)
 
         cur_pos = self._inner_tell()
-        if cur_pos > self._inner_size():
+        if len(buffer) and self._seekable and cur_pos > self._inner_size():
             # we extend the file with zeros until current file pointer position
-            self._inner_extend(cur_pos, zero_fill=True)
+            self.truncate(cur_pos, zero_fill=True)
 
         if self._use_nonblocking_pipe_write_hack:
             # Non-blocking pipes have horrendous behaviour on Windows
-- 
2.43.0


From 1553a96dc30d91ed2db4f5476010070c99e126f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 26/56] fix: return 0 rather than None for empty raw writes on
 Windows

---
 src/rsfile/rsfileio_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 8a8dc2a..47b1595 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -414,7 +414,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # Nothing special for to do with errCode, for files, it seems
         # see https://learn.microsoft.com/en-us/windows/win32/api/fileapi/nf-fileapi-writefile
         #print(">> WIN32 WRITE RETURNED", errCode, bytes_written)
-        if not bytes_written:
+        if len(buffer) and not bytes_written:
             #print(">> WIN32 WRITE FALLBACK TO NONE")
             return None  # We mimick effects of EAGAIN on Unix
 
-- 
2.43.0


From 30403cf516a2d55ce8a9068da80732699226b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 27/56] fix: report empty paths as missing files, like
 io.open(), not as missing arguments

---
 src/rsfile/rsfileio_abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 8e9bbf6..be7277b 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -100,7 +100,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         if path is not None and not isinstance(path, (bytes, str)):
             raise defs.BadValueTypeError("If provided, path must be a string.")
 
-        if bool(path) + (fileno is not None) + (handle is not None) != 1:
+        if (path is not None) + (fileno is not None) + (handle is not None) != 1:
             raise defs.BadValueTypeError("File must provide path, fileno or handle value, and only one of these.")
 
         if not read and not write:
-- 
2.43.0


From 5a7e001e4603d90c1b4f38aca26cd5c0ddd709d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 28/56] fix: refuse closefd=False with an opener, since the new
 descriptor would never be closed

---
 src/rsfile/rsfile_factories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 4a1da37..350583b 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -262,6 +262,8 @@ def rsopen(
     if opener:
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
+        if not closefd:
+            raise defs.BadValueTypeError("can't use closefd=False with an opener, which creates a new descriptor")
         raw_kwargs["fileno"] = opener(
             name, _compute_opener_flags(raw_kwargs, extended_kwargs)
         )  # we give it the original "name" as parameter, not the normalized path
-- 
2.43.0


From 54e5a121a6b7c1b5bbdd6de0764f86160ea057ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 29/56] fix: give to the replacements of open() and FileIO the
 arguments of the standard ones (order, names, opener, path objects,
 permissions)

---
 src/rsfile/rsfile_utilities.py | 53 +++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index f84e588..a8bd455 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -2,20 +2,51 @@
 
 
 import errno
+import os
 
 from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
+from .rsfile_factories import _compute_opener_flags
 
 
-def BUILTIN_OPEN_FUNC_REPLACEMENT(*args, **kwargs):
+def BUILTIN_OPEN_FUNC_REPLACEMENT(
+    file=None,
+    mode="r",
+    buffering=-1,
+    encoding=None,
+    errors=None,
+    newline=None,
+    closefd=True,
+    opener=None,
+    **kwargs
+):
     """
     Replacement for the built-in open() function,
-    with rectified default arguments, and
-    tolerant mode for str/unicode mixes in python2.
+    with the same arguments, in the same order, and
+    rectified default values for the other ones.
     """
-    params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
+    params = dict(
+        name=file,
+        handle=None,
+        locking=False,
+        timeout=0,
+        thread_safe=False,
+        mutex=None,
+        permissions=0o666,  # like io.open(), don't create executable files
+    )
     params.update(kwargs)
-    stream = rsopen(*args, **params)
+    if isinstance(file, int):
+        opener = None  # like in io.open(), it's only used with paths
+    stream = rsopen(
+        mode=mode,
+        buffering=buffering,
+        encoding=encoding,
+        errors=errors,
+        newline=newline,
+        closefd=closefd,
+        opener=opener,
+        **params
+    )
     return stream
 
 
@@ -30,11 +61,19 @@ class RSFileIOWrapper(RSFileIO):
     Interface to rsFile accepting the limited "fopen()" modes (no file locking, no O_EXCL|O_CREAT semantic...)
     """
 
-    def __init__(self, name, mode="r", closefd=True):
+    def __init__(self, file, mode="r", closefd=True, opener=None):
 
-        (raw_kwargs, extended_kwargs) = parse_standard_args(name, mode, None, None, closefd)
+        if USE_FSPATH and not isinstance(file, int):
+            file = os.fspath(file)
+        (raw_kwargs, extended_kwargs) = parse_standard_args(file, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
+        if opener and raw_kwargs["fileno"] is None:
+            if not closefd:
+                raise BadValueTypeError("Cannot use closefd=False with file name")
+            raw_kwargs["fileno"] = opener(file, _compute_opener_flags(raw_kwargs, extended_kwargs))
+            raw_kwargs["path"] = None
+        raw_kwargs["permissions"] = 0o666  # like io.FileIO, don't create executable files
         RSFileIO.__init__(self, **raw_kwargs)
         if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
-- 
2.43.0


From 40ba033e98f48fb3c40aa50e35c1731c1b99d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 30/56] fix: don't leak the descriptor of new streams when
 their initialization fails

---
 src/rsfile/rsfileio_unix.py | 42 ++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 0f4fff9..2a9976a 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -119,21 +119,33 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # print("Creating unix stream with context", locals())
             self._fileno = self._handle = unix.open(strname, flags, permissions)
 
-            # on unix we must prevent the opening of directories, but not named fifos or other special files
-            stats = unix.fstat(self._fileno).st_mode
-            if stat.S_ISDIR(stats):
-                unix.close(self._fileno)
-                raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
-
-            # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
-            if hasattr(os, "set_inheritable"):
-                os.set_inheritable(self._fileno, inheritable)  # for safety we call it in any case
-            else:
-                # before PEP0446, newly created file descriptors were inheritable by default
-                if not inheritable:
-                    old_flags = unix.fcntl(self._fileno, unix.F_GETFD, 0)
-                    if not (old_flags & unix.FD_CLOEXEC):
-                        unix.fcntl(self._fileno, unix.F_SETFD, old_flags | unix.FD_CLOEXEC)
+            try:
+                # on unix we must prevent the opening of directories, but not named fifos or other special files
+                stats = unix.fstat(self._fileno).st_mode
+                if stat.S_ISDIR(stats):
+                    raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
+
+                # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
+                if hasattr(os, "set_inheritable"):
+                    os.set_inheritable(self._fileno, inheritable)  # for safety we call it in any case
+                else:
+                    # before PEP0446, newly created file descriptors were inheritable by default
+                    if not inheritable:
+                        old_flags = unix.fcntl(self._fileno, unix.F_GETFD, 0)
+                        if not (old_flags & unix.FD_CLOEXEC):
+                            unix.fcntl(self._fileno, unix.F_SETFD, old_flags | unix.FD_CLOEXEC)
+
+                self.unique_id()  # might raise too
+            except:
+                try:
+                    self._lock_registry_inode = self.unique_id()
+                except EnvironmentError:
+                    unix.close(self._fileno)
+                else:
+                    self._lock_registry_descriptor = self._fileno
+                    self._inner_close_streams()  # preserves the locks held through other descriptors of the file
+                    del self._lock_registry_descriptor  # nothing left to be done on destruction
+                raise
 
         # WHATEVER the origin of the stream, we initialize these fields:
         self._lock_registry_inode = self.unique_id()  # enforces caching of unique_id
-- 
2.43.0


From c16a231f6a54f817c81b03af3a9cb40b433a2da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 31/56] fix: let truncate() accept any boolean-like zero_fill
 argument, on raw streams too

---
 src/rsfile/rsfileio_abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index be7277b..d01280c 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -480,7 +480,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             self._inner_reduce(size)
         else:
             assert size > current_size, (size, current_size)
-            self._inner_extend(size, zero_fill)
+            self._inner_extend(size, bool(zero_fill))
 
             current_size = self.size()
             if current_size != size:  # no native operation worked for it. so we fill with zeros by ourselves
-- 
2.43.0


From 3627535253fdd52320ce0c4c8e8da10c4acc2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 32/56] fix: raise ValueError when calling tell() on a closed
 text stream, even after an interrupted iteration

---
 src/rsfile/rsfile_streams.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 229ec2d..cda31d7 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -103,6 +103,10 @@ class _text_forwarder_mixin(object):
         self.flush()
         self._telling = telling
 
+    def tell(self):
+        self._checkClosed()  # the stdlib version might complain about iterations instead
+        return super().tell()
+
     def unique_id(self):
         return self.buffer.unique_id()
 
-- 
2.43.0


From 5df13ae2191643cd8cbb901de42f830f0f667666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 33/56] fix: don't return buffered data when reading from a
 closed stream

---
 src/rsfile/rsfile_streams.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index cda31d7..2586020 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -166,6 +166,10 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def _read_unlocked(self, n=None):
+        self._checkClosed("read of closed file")  # the stdlib version still gives the data already buffered
+        return super()._read_unlocked(n)
+
     def _readinto(self, buf, read1):
         # the stdlib version raises ValueError when several partial reads are needed to fill the buffer
         count = super()._readinto(buf, read1=True)
-- 
2.43.0


From aafafe46e97821b4fc8cd72a62b57c7dbeacde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 34/56] fix: don't corrupt the position of buffered streams
 when refusing non-integer sizes

---
 src/rsfile/rsfile_streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 2586020..b026dfd 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -3,6 +3,7 @@
 
 import functools
 import multiprocessing
+import operator
 import os
 import threading
 from contextlib import contextmanager
@@ -168,6 +169,8 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
 
     def _read_unlocked(self, n=None):
         self._checkClosed("read of closed file")  # the stdlib version still gives the data already buffered
+        if n is not None:
+            n = operator.index(n)  # else the stdlib version corrupts the current position
         return super()._read_unlocked(n)
 
     def _readinto(self, buf, read1):
-- 
2.43.0


From 2068aac15cd6101e3bbd959cf0d2275ecfe952c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 35/56] fix: don't consume data when readinto() of raw streams
 refuses a read-only buffer

---
 src/rsfile/rsfileio_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index d01280c..4e442f4 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -399,6 +399,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
         if USE_MEMORYVIEW_CAST:
             buffer = memoryview(buffer).cast("B")
+            if buffer.readonly:
+                raise defs.BadValueTypeError("can't read into a read-only buffer")
 
         mybytes = self._inner_read(len(buffer))
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
-- 
2.43.0


From 37f82b0f5e1aadbad9e04f5fe0432e58e18dc7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 36/56] fix: don't corrupt the position of buffered read/write
 streams when a seek() fails

---
 src/rsfile/rsfile_streams.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index b026dfd..0a2e308 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -196,6 +196,16 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
+    def seek(self, pos, whence=os.SEEK_SET):
+        if whence in defs.io_module.valid_seek_flags:
+            # the stdlib version forgets to drop the data read in advance, when it undoes that reading but then fails to seek
+            self.flush()
+            with self._read_lock:
+                if self._read_buf:
+                    self.raw.seek(self._read_pos - len(self._read_buf), os.SEEK_CUR)
+                    self._reset_read_buf()
+        return super().seek(pos, whence)
+
     def truncate(self, size=None, zero_fill=True):
         if zero_fill:
             return super().truncate(size)
-- 
2.43.0


From e640aa78cb066e461a3baf5a9e0a677b4fdb3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 37/56] fix: properly refuse non-integer sizes in truncate()

---
 src/rsfile/rsfileio_abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 4e442f4..d9965db 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -2,6 +2,7 @@
 
 
 import errno
+import operator
 import os
 import stat
 import sys
@@ -470,7 +471,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
         if size is None:
             size = self.tell()
-        elif size < 0:
+        else:
+            size = operator.index(size)  # real numbers, including NaN, are meaningless here
+        if size < 0:
             raise IOError(
                 errno.EINVAL, "Invalid argument : truncation size must be None or positive integer, not '%s'" % size
             )
-- 
2.43.0


From b15af6773ccffc2daa6218e6d4d339c717f15cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 38/56] fix: don't close the wrapped descriptor of the caller
 when streams can't be created around it, but close that of the opener

---
 src/rsfile/rsfile_factories.py  |  9 +++++++--
 src/rsfile/rsfileio_abstract.py | 25 ++++++++++++++-----------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 350583b..45b957c 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
 
-import sys, os, stat
+import sys, os, stat, errno
 from . import rsfile_definitions as defs
 from .rsfile_streams import *
 
@@ -277,7 +277,12 @@ def rsopen(
 
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
-    raw = RSFileIO(**raw_kwargs)
+    try:
+        raw = RSFileIO(**raw_kwargs)
+    except EnvironmentError as e:
+        if opener and e.errno != errno.EBADF:
+            os.close(raw_kwargs["fileno"])  # the caller knows nothing about this descriptor
+        raise
     result = raw
     try:
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index d9965db..45ce96c 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -172,7 +172,6 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
                     assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
-                    self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
                 seekable = is_regular
@@ -185,16 +184,20 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             assert self._lock_registry_inode is not None, self._lock_registry_inode
             assert self._lock_registry_descriptor is not None, self._lock_registry_descriptor
 
-        except OverflowError as e:
-            raise defs.BadValueTypeError(e)  # probably a too big filedescriptor number
-
-        if append:
-            try:
-                self.seek(0, os.SEEK_END)  # required by unit tests, might raise if non-seekable file...
-            except OSError as exc:
-                if exc.errno != errno.ESPIPE:
-                    raise
-                # Else it's an Illegal Seek, probably because of a Pipe stream, so we let go
+            if append:
+                try:
+                    self.seek(0, os.SEEK_END)  # required by unit tests, might raise if non-seekable file...
+                except OSError as exc:
+                    if exc.errno != errno.ESPIPE:
+                        raise
+                    # Else it's an Illegal Seek, probably because of a Pipe stream, so we let go
+
+        except BaseException as e:
+            if path is None:
+                self._closefd = False  # disown the descriptor or handle, which still belongs to the caller
+            if isinstance(e, OverflowError):
+                raise defs.BadValueTypeError(e)  # probably a too big filedescriptor number
+            raise
 
     def __repr__(self):
         return "<%s name=%r mode='%s' origin='%s' closefd=%s>" % (
-- 
2.43.0


From 89703a4569098ec54e6a23fa2a7b12d4c0c59f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 39/56] fix: don't keep registry entries forever when a waiting
 lock request is interrupted by an exception

---
 src/rsfile/rsfile_registries.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index e3ec2a6..20ddb92 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -186,8 +186,10 @@ class IntraProcessLockRegistryClass(object):
                 else:
                     # print ("THREAD %s WAITING REGISTRY %s" % (threading.current_thread().name, unique_id))
                     self._lock_registry[unique_id][3] += 1
-                    self._lock_registry[unique_id][0].wait(timeout)  # we wait on the condition until locks get removed
-                    self._lock_registry[unique_id][3] -= 1
+                    try:
+                        self._lock_registry[unique_id][0].wait(timeout)  # we wait on the condition until locks get removed
+                    finally:  # a signal handler might raise
+                        self._lock_registry[unique_id][3] -= 1
                     # print ("THREAD %s LEAVING REGISTRY %s" % (threading.current_thread().name, unique_id))
 
             # print (">Thread %s handle %s RETURNING %s from register_file_lock" % (threading.current_thread().name,
-- 
2.43.0


From 4ae43dbec4ee165e5686f04f400c63ddbf7df840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 40/56] fix: don't take other errors, like exceptions raised by
 signal handlers, for lock contention

---
 src/rsfile/rsfileio_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 45ce96c..1b33cb2 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -642,8 +642,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         success = True  # we leave the two loops
 
                     except EnvironmentError as e:
-                        if e.errno in (errno.EINVAL, errno.EOVERFLOW, errno.EBADF):
-                            raise  # not a lock contention, retrying would be useless
+                        if e.errno not in (errno.EACCES, errno.EAGAIN, errno.EDEADLK, errno.ENOLCK):
+                            raise  # not a lock contention (maybe a signal handler raised), retrying would be wrong
                         check_timeout(e)
 
             finally:
-- 
2.43.0


From 8f0507ce8881fecd458cfed00baa3be7986d9254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 41/56] fix: report write failures met by the first
 synchronization requests of sync()

---
 src/rsfile/rsfileio_unix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 2a9976a..327a8bc 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -20,6 +20,9 @@ from .rsfile_registries import IntraProcessLockRegistry
 
 UNIX_MSG_ENCODING = locale.getpreferredencoding()
 
+# when a kind of synchronization isn't supported by the system or for that file, the next one can be attempted
+UNSUPPORTED_SYNC_ERRORS = (errno.EINVAL, errno.ENOSYS, errno.ENOTSUP, errno.EOPNOTSUPP, errno.ENOTTY, errno.EROFS)
+
 
 class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     # Warning - this is to be used as a static method ! #
@@ -182,8 +185,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fcntl(self._fileno, unix.F_FULLFSYNC, 0)  # Mac OS X only
                 # print("FULLFLUSH_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in UNSUPPORTED_SYNC_ERRORS:
+                    raise  # the failure to write data might not be reported again by the next attempts
 
         if not metadata and hasattr(unix, "fdatasync"):
             try:
@@ -191,8 +195,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fdatasync(self._fileno)  # not supported on Mac OS X
                 # print("FDATASYNC_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in UNSUPPORTED_SYNC_ERRORS:
+                    raise
 
         unix.fsync(self._fileno)  # last attempt : metadata flush without full_sync guarantees
         # print("FSYNC_UNIX_DONE")
-- 
2.43.0


From cf28d80f4999f00403449c59abe47969670d95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 42/56] fix: streams created with an opener are named after the
 path given, like in the stdlib, not after the descriptor

---
 src/rsfile/rsfile_factories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 45b957c..739ae19 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -283,6 +283,8 @@ def rsopen(
         if opener and e.errno != errno.EBADF:
             os.close(raw_kwargs["fileno"])  # the caller knows nothing about this descriptor
         raise
+    if opener and name is not None:
+        raw.name = name  # like in the stdlib, instead of the fileno
     result = raw
     try:
 
-- 
2.43.0


From 61c93cd37c74b0c7569040a2fc8de1e1df9eec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 43/56] fix: forget the lock registry entry of a file when
 closing a stream which doesn't own its descriptor

---
 src/rsfile/rsfileio_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 1b33cb2..41717e6 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -227,6 +227,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                                 # print (">>>>>>>> ", (handle, shared, start, end))
                                 length = None if end is None else (end - start)
                                 self._inner_file_unlock(length, start)
+                            # even if the native descriptor isn't ours to close
+                            IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
                     finally:
                         # Mark the raw stream as closed, even if some operations failed
                         self._inner_close_streams()  # Might raise OverflowError
-- 
2.43.0


From d562f7bb22491e2f29618dc569c7ac8b47ed3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:59 +0000
Subject: [PATCH 44/56] fix: let tell() work on text streams after a seek() in
 the middle of a newline sequence, it failed an assertion

---
 src/rsfile/rsfile_streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 0a2e308..45c306c 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -106,6 +106,9 @@ class _text_forwarder_mixin(object):
 
     def tell(self):
         self._checkClosed()  # the stdlib version might complain about iterations instead
+        if self._snapshot and self._decoded_chars_used:
+            # this ratio (a simple hint) might be outdated after a seek(), and then fail an assertion of the stdlib version
+            self._b2cratio = min(self._b2cratio, len(self._snapshot[1]) / self._decoded_chars_used)
         return super().tell()
 
     def unique_id(self):
-- 
2.43.0


From f925fd835c7ee22b1f24ec57a378bf6f82651397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 45/56] fix: renew the mutex of the lock registry in forked
 children, they hanged if another thread of the parent was using it

---
 src/rsfile/rsfile_registries.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 20ddb92..c80872e 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -87,6 +87,9 @@ class IntraProcessLockRegistryClass(object):
             self._lock_registry = {}
             self._original_pid = os.getpid()
 
+    def _renew_mutex(self):
+        self.mutex = threading.RLock()  # the conditions using the previous one are dropped by _check_forking()
+
     def _ensure_entry_exists(self, unique_id, create=False):
         """
         Returns True iff the entry existed before the call.
@@ -316,3 +319,7 @@ class IntraProcessLockRegistryClass(object):
 
 # single global instance
 IntraProcessLockRegistry = IntraProcessLockRegistryClass()
+
+if hasattr(os, "register_at_fork"):
+    # another thread of the parent process might have been holding the mutex, nobody would ever release its copy
+    os.register_at_fork(after_in_child=IntraProcessLockRegistry._renew_mutex)
-- 
2.43.0


From 4b450355845061a5082e1c590e4fe345c744c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 46/56] fix: make the lock registry support the destruction of
 streams in the middle of its operations, by the garbage collector

---
 src/rsfile/rsfile_registries.py | 39 +++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index c80872e..9eb69be 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -75,7 +75,10 @@ class IntraProcessLockRegistryClass(object):
         # means 'infinity') + attached data
         self._lock_registry = {}
 
+        # streams may be destroyed at any moment by the garbage collector, hence release their locks while the current
+        # thread is already in the middle of another operation of this registry
         self.mutex = threading.RLock()
+        self._releases = 0  # number of lock releases done until now
 
     def _check_forking(self):
         # unprotected method - beware
@@ -117,9 +120,11 @@ class IntraProcessLockRegistryClass(object):
         # print (">Thread %s handle %s TRYING TO TAKE lock with %s" % (threading.current_thread().name, handle,
         # (new_shared, new_start, new_end)))
 
-        if self._ensure_entry_exists(unique_id, create=True):
+        existing = self._ensure_entry_exists(unique_id, create=True)
+        entry = self._lock_registry[unique_id]
+        if existing:
 
-            for (other_handle, shared, start, end) in self._lock_registry[unique_id][1]:
+            for (other_handle, shared, start, end) in list(entry[1]):
 
                 if other_handle != handle and shared == new_shared == True:
                     continue  # there won't be problems with shared locks from different file handles
@@ -140,7 +145,8 @@ class IntraProcessLockRegistryClass(object):
         # print (">Thread %s handle %s takes lock with %s" % (threading.current_thread().name, handle, (new_shared,
         # new_start, new_end)))
         # we register as owner of this lock inside this process
-        self._lock_registry[unique_id][1].append((handle, new_shared, new_start, new_end))
+        entry[1].append((handle, new_shared, new_start, new_end))
+        self._lock_registry[unique_id] = entry  # the destruction of another stream might just have deleted it
         return True  # no badly overlapping range was found
 
     def _try_unlocking_range(self, unique_id, handle, new_length, new_start):
@@ -159,12 +165,13 @@ class IntraProcessLockRegistryClass(object):
         # print ("<Thread %s handle %s wants to remove lock with %s" % \
         # (threading.current_thread().name, handle, (new_start, new_end)))
 
-        locks = self._lock_registry[unique_id][1]
-        for index, (other_handle, shared, start, end) in enumerate(locks):
+        (condition, locks) = self._lock_registry[unique_id][:2]
+        for (other_handle, shared, start, end) in list(locks):
             if other_handle == handle and start == new_start and end == new_end:
-                del locks[index]
+                locks.remove((other_handle, shared, start, end))
+                self._releases += 1
                 # print ("THREAD %s NOTIFYING %s" % ( threading.current_thread().name, unique_id))
-                self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
+                condition.notify_all()  # we awake potential waiters - ALL of them
                 if not locks:
                     return True
                 else:
@@ -183,10 +190,11 @@ class IntraProcessLockRegistryClass(object):
             # we handle both blocking and non-blocking locks there
             res = False
             while not res:
+                releases = self._releases
                 res = self._try_locking_range(unique_id, handle, length, offset, shared)
                 if res or not blocking:
                     break
-                else:
+                elif releases == self._releases:  # else it's worth trying again immediately
                     # print ("THREAD %s WAITING REGISTRY %s" % (threading.current_thread().name, unique_id))
                     self._lock_registry[unique_id][3] += 1
                     try:
@@ -217,17 +225,14 @@ class IntraProcessLockRegistryClass(object):
             if not self._ensure_entry_exists(unique_id, create=False):
                 return []
 
-            removed_locks = []
-            remaining_locks = []
-            for record in self._lock_registry[unique_id][1]:
-                if record[0] == handle:
-                    removed_locks.append(record)
-                else:
-                    remaining_locks.append(record)
+            (condition, locks) = self._lock_registry[unique_id][:2]
+            removed_locks = [record for record in list(locks) if record[0] == handle]
+            for record in removed_locks:
+                locks.remove(record)
 
-            self._lock_registry[unique_id][1] = remaining_locks
             if removed_locks:
-                self._lock_registry[unique_id][0].notify_all()  # waiters may now get their lock
+                self._releases += 1
+                condition.notify_all()  # waiters may now get their lock
 
             return removed_locks
 
-- 
2.43.0


From 81e206b0d816fff45abd0810f08d0c0db0db9453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 47/56] fix: measure lock timeouts with the monotonic clock,
 adjustments of the system clock impacted them

---
 src/rsfile/rsfileio_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 41717e6..fa137dc 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -582,14 +582,14 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
 
-        start_time = time.time()
+        start_time = time.monotonic()  # not impacted by adjustments of the system clock
 
         def check_timeout(env_error):
             """
             If timeout has expired, raises the exception given as parameter.
             Else, sleeps for a short period.
             """
-            delay = time.time() - start_time
+            delay = time.monotonic() - start_time
             if not blocking:  # we have a timeout set
 
                 if delay >= timeout:  # else, we try again until success or timeout
-- 
2.43.0


From 5550926baf714a21a16876cb183b99491fab9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 48/56] fix: fail exclusive creations if the new file got
 filled by someone else before being locked, their data got mixed

---
 src/rsfile/rsfile_factories.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 739ae19..c560c12 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -294,6 +294,10 @@ def rsopen(
                 # print "we enforce file locking with %s - %s" %(shared, timeout)
                 raw.lock_file(timeout=timeout)
 
+                if raw_kwargs["must_create"] and raw.origin == "path" and raw.size():
+                    # someone else locked and filled that new file before us, so let's behave as if they had created it
+                    raise IOError(errno.EEXIST, os.strerror(errno.EEXIST), name)
+
             if extended_kwargs["truncate"]:
                 # NOW that we've potentially locked the file, we NOW may truncate
                 raw.truncate(0)
-- 
2.43.0


From 95f83ffa8e0e8d546b2f99c53ae72938409d4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 49/56] fix: start at the end of the file in append mode, when
 it has grown while waiting for the initial lock

---
 src/rsfile/rsfile_factories.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index c560c12..6e2fe43 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -294,6 +294,9 @@ def rsopen(
                 # print "we enforce file locking with %s - %s" %(shared, timeout)
                 raw.lock_file(timeout=timeout)
 
+                if raw_kwargs["append"]:
+                    raw.seek(0, os.SEEK_END)  # the file might have grown while we were waiting for the lock
+
                 if raw_kwargs["must_create"] and raw.origin == "path" and raw.size():
                     # someone else locked and filled that new file before us, so let's behave as if they had created it
                     raise IOError(errno.EEXIST, os.strerror(errno.EEXIST), name)
-- 
2.43.0


From 45989111784d4282cfdf9246f33890f67ffaea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 50/56] fix: readline(size) of buffered readers never gives
 more than size bytes

---
 src/rsfile/rsfile_streams.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 45c306c..332ee62 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -176,6 +176,22 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
             n = operator.index(n)  # else the stdlib version corrupts the current position
         return super()._read_unlocked(n)
 
+    def readline(self, size=-1):
+        size = -1 if size is None else operator.index(size)
+        if size < 0:
+            return super().readline()
+        # the stdlib version might give more than "size" bytes, when several reads are needed
+        self._checkClosed()
+        line = b""
+        while len(line) < size and not line.endswith(b"\n"):
+            ahead = self.peek(1)
+            count = (ahead.find(b"\n") + 1) or len(ahead) or 1
+            data = self.read(min(count, size - len(line)))
+            if not data:
+                break
+            line += data
+        return line
+
     def _readinto(self, buf, read1):
         # the stdlib version raises ValueError when several partial reads are needed to fill the buffer
         count = super()._readinto(buf, read1=True)
-- 
2.43.0


From 9e6816394ab53e78ee19298b8a391edb066653ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 51/56] fix: truncate() of read/write buffered streams takes
 buffered data into account

---
 src/rsfile/rsfile_streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 332ee62..8447774 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -226,6 +226,7 @@ class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBuffer
         return super().seek(pos, whence)
 
     def truncate(self, size=None, zero_fill=True):
+        self._reset_buffers()  # data read in advance might not exist anymore afterwards, and pending data might get appended
         if zero_fill:
             return super().truncate(size)
         return RSBufferedWriter.truncate(self, size, zero_fill)
-- 
2.43.0


From 12d296ce452dede923aa35545a09df0c4a876af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 52/56] fix: newlines of text streams with an explicit newline
 argument

---
 src/rsfile/rsfile_streams.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 8447774..bc425e2 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -111,6 +111,10 @@ class _text_forwarder_mixin(object):
             self._b2cratio = min(self._b2cratio, len(self._snapshot[1]) / self._decoded_chars_used)
         return super().tell()
 
+    @property
+    def newlines(self):
+        return getattr(self._decoder, "newlines", None)  # not all decoders have it
+
     def unique_id(self):
         return self.buffer.unique_id()
 
-- 
2.43.0


From 8a56b91d94fbaa2a325b9c8be741acada3f9e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 53/56] fix: reconfigure() without codec change keeps the state
 of the decoder

---
 src/rsfile/rsfile_streams.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index bc425e2..2400103 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -115,6 +115,18 @@ class _text_forwarder_mixin(object):
     def newlines(self):
         return getattr(self._decoder, "newlines", None)  # not all decoders have it
 
+    def reconfigure(self, *, encoding=None, errors=None, newline=Ellipsis, line_buffering=None, write_through=None):
+        if encoding is not None or errors is not None or newline is not Ellipsis:
+            return super().reconfigure(
+                encoding=encoding, errors=errors, newline=newline, line_buffering=line_buffering, write_through=write_through
+            )
+        # the stdlib version forgets the state of the codecs, even when they don't change
+        self._flush_data()
+        if line_buffering is not None:
+            self._line_buffering = line_buffering
+        if write_through is not None:
+            self._write_through = write_through
+
     def unique_id(self):
         return self.buffer.unique_id()
 
-- 
2.43.0


From 6d8ab8dfc5cc554004be5b2043225db4dca43fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 54/56] fix: truncate() of text streams in the middle of an
 iteration

---
 src/rsfile/rsfile_streams.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 2400103..2f2dd89 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -138,11 +138,15 @@ class _text_forwarder_mixin(object):
         return self.buffer.size()
 
     def truncate(self, size=None, zero_fill=True):
+        if size is None:
+            if self.readable():
+                self._flush_data()
+            else:
+                self.flush()
+            size = self.tell()  # fails in the middle of an iteration, where that position isn't known
         if zero_fill:
             return super().truncate(size)
         self.flush()
-        if size is None:
-            size = self.tell()
         return self.buffer.truncate(size, zero_fill)
 
     def sync(self, *args, **kwargs):
-- 
2.43.0


From f2fa6b07f1cb7463d90efd61caa59fcacdfe00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 55/56] fix: default streams can't be copied nor pickled

---
 src/rsfile/rsfile_streams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 2f2dd89..bb26452 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -253,7 +253,8 @@ class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBuffer
 
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
-    pass
+    def __reduce__(self):
+        raise defs.BadValueTypeError("cannot pickle RSTextIOWrapper")  # copies would close the buffer of the original one
 
 
 class RSThreadSafeWrapper(object):
@@ -301,6 +302,9 @@ class RSThreadSafeWrapper(object):
     def lock_file(self, *args, **kwargs):
         return self._secure_lock_remover(self._secure_call("lock_file", *args, **kwargs))
 
+    def __reduce__(self):
+        raise defs.BadValueTypeError("cannot pickle %r" % self)
+
     @contextmanager
     def _secure_lock_remover(self, lock_remover):
         lock_remover.__enter__()
-- 
2.43.0


From 05e36d4a2ee89119a5781e7d80ccb6bb14a97000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 56/56] fix: interrupted unlock_file() doesn't leave a kernel
 lock forever

---
 src/rsfile/rsfileio_abstract.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index fa137dc..0b76f5e 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -678,10 +678,15 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         abs_offset = self._convert_relative_offset_to_absolute(offset, whence)
 
         with IntraProcessLockRegistry.mutex:  # IMPORTANT - keep the registry lock during the whole operation
-            IntraProcessLockRegistry.unregister_file_lock(
-                self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
-            )
-            self._inner_file_unlock(length, abs_offset)
+            try:
+                IntraProcessLockRegistry.unregister_file_lock(
+                    self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+                )
+                self._inner_file_unlock(length, abs_offset)
+            except:
+                # a signal handler might have raised, the system mustn't keep a lock which isn't registered anymore
+                self._inner_file_lock_aborted(length, abs_offset)
+                raise
 
     # # Private methods - no check is made on their argument or the file object state ! # #
 
-- 
2.43.0

