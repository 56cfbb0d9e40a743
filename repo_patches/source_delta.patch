From 0926dac919b0760ff0636767370a068c16794852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 001/125] fix: list empty folders stored in an index as empty
 instead of reporting them as absent

---
 core/ratarmountcore/SQLiteIndex.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..f94d6d7 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -816,6 +816,10 @@ class SQLiteIndex:
         # This effect is good to have for inserting rows but not for querying rows.
         return '/' + posixpath.normpath(path if path.startswith('../') else '/' + path).lstrip('/')
 
+    def _is_folder(self, path: str) -> bool:
+        fileInfo = self.lookup(path)
+        return fileInfo is not None and stat.S_ISDIR(fileInfo.mode)
+
     def list(self, path: str) -> Optional[dict[str, FileInfo]]:
         """
         Return a dictionary for the given directory path: { fileName : FileInfo, ... } or None
@@ -893,7 +897,7 @@ class SQLiteIndex:
 
         gotResults = bool(directory)
         directory.pop('', None)
-        return directory if gotResults else None
+        return directory if gotResults or self._is_folder(path) else None
 
     def list_mode(self, path: str) -> Optional[dict[str, int]]:
         """
@@ -916,7 +920,7 @@ class SQLiteIndex:
         directory = {row[0]: row[1] for row in rows}
         gotResults = bool(directory)
         directory.pop('', None)
-        return directory if gotResults else None
+        return directory if gotResults or self._is_folder(path) else None
 
     def versions(self, path: str) -> dict[str, FileInfo]:
         """
-- 
2.43.0


From bcc63fb84959b1fa6b6ea97559e6d4e888481597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 002/125] fix: show block devices in TARs with their file type

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..fff010b 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -145,6 +145,7 @@ class _TarFileMetadataReader:
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
+            | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
             | ( stat.S_IFIFO if tarInfo.isfifo() else 0 )
         )
         # fmt: on
-- 
2.43.0


From 6e8f7d8fe25e67b17b8e1655e832116c7c3306cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 003/125] fix: use the real name of sparse TAR members that
 also have a placeholder path in their PAX header

---
 core/ratarmountcore/mountsource/formats/tar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fff010b..57da0f0 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -213,6 +213,11 @@ class _TarFileMetadataReader:
         if isGnuIncremental:
             _TarFileMetadataReader._fix_incremental_backup_name_prefixes(fileObject, tarInfo)
 
+        # The tarfile module lets the PAX header, path or GNU.sparse.name, that comes last win. However, GNU tar also
+        # adds a path with a placeholder folder (GNUSparseFile.<pid>) for sparse files with long or non-ASCII names.
+        if 'GNU.sparse.name' in tarInfo.pax_headers:
+            tarInfo.name = tarInfo.pax_headers['GNU.sparse.name'].rstrip('/')
+
         offsetHeader = streamOffset + tarInfo.offset
 
         prefix = 'SCHILY.xattr.'
-- 
2.43.0


From bd17609b772946291a36753c4a449cfd73fe7738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 004/125] fix: open sparse TAR members that have no holes

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 57da0f0..55576c3 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1098,7 +1098,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if lastEnd < realFileSize:
                 stencils.append((True, 0, realFileSize - lastEnd))
 
-            zeros = cast(IO[bytes], ZeroFile(max(x[2] for x in stencils if x[0])))
+            zeros = cast(IO[bytes], ZeroFile(max((x[2] for x in stencils if x[0]), default=0)))
             return self._open_stencil(
                 [(zeros if is_null else self.tarFileObject, offset, size) for is_null, offset, size in stencils],
                 buffering,
-- 
2.43.0


From d6bc560925cfeca955c7f4431046da8c414e40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 005/125] fix: make empty files in archives opened with
 libarchive readable

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..7b9e3df 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -391,6 +391,9 @@ class LibarchiveFile(io.RawIOBase):
                 break
             if self._entry.entry_index == self.entry_index:
                 self._refill_buffer()
+                if self._bufferIO is None:
+                    # Nothing needs to be read for empty files.
+                    self._bufferIO = io.BytesIO()
                 break
 
         if self._entry is None and self._bufferIO is None:
-- 
2.43.0


From 11462522f60609c03dce77d36b0b41883b37c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 006/125] fix: list SQLAR folders whose name contains GLOB
 characters and do not list files or absent paths

---
 .../mountsource/formats/sqlar.py              | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4142310..86ae5a1 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,6 +1,7 @@
 import posixpath
 import shutil
 import sqlite3
+import stat
 import sys
 import tempfile
 import urllib.parse
@@ -145,6 +146,8 @@ class FixedSqliteBlob(LambdaReaderFile):
 
 class SQLARMountSource(MountSource):
     _SQLITE_FILEINFO_COLUMNS = "rowid, mode, mtime, sz, CASE WHEN sz=-1 THEN data ELSE '' END"
+    # GLOB cannot be used for the comparison with the folder path because that may contain special characters, e.g., '['.
+    _SQLITE_IS_CHILD = "substr(name,1,(?)) == (?) AND substr(name,(?)) NOT GLOB '*/*'"
     _MAGIC_BYTES = b'SQLite format 3\x00'
 
     def __init__(
@@ -291,18 +294,24 @@ class SQLARMountSource(MountSource):
                 names.append(name)
         return names
 
+    def _is_folder(self, path: str) -> bool:
+        fileInfo = self.lookup("/" + path.strip("/"))
+        return fileInfo is not None and stat.S_ISDIR(fileInfo.mode)
+
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = path.strip("/") + "/" if path.strip("/") else ""
+        if not self._is_folder(path):
+            return None
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
             for name, rowid, mode, mtime, size, linkname in self.connection.execute(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
-                "WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                f"WHERE {SQLARMountSource._SQLITE_IS_CHILD}",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         }
 
@@ -311,11 +320,13 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = path.strip("/") + "/" if path.strip("/") else ""
+        if not self._is_folder(path):
+            return None
         return dict(
             self.connection.execute(
-                "SELECT substr(name,(?)), mode FROM sqlar WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                f"SELECT substr(name,(?)), mode FROM sqlar WHERE {SQLARMountSource._SQLITE_IS_CHILD}",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         )
 
-- 
2.43.0


From e64c1115c7882c02dda337a1792e4d7aa93fad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 007/125] fix: show files in SQLARs without rows for their
 parent folders

---
 .../mountsource/formats/sqlar.py              | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 86ae5a1..2acd9de 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -190,15 +190,23 @@ class SQLARMountSource(MountSource):
 
         self.options = options
 
-        # Check for denormal names and store a normalized list if necessary.
-        self._files: dict[str, int] = {}
+        # Check for denormal names and missing parent folders and store a normalized list if necessary.
+        # Generated parent folders have no row ID.
+        self._files: dict[str, Optional[int]] = {}
+        names = {name for name, in self.connection.execute("SELECT name FROM sqlar;")}
         if any(
-            posixpath.normpath(name.lstrip('/')) != name for name, in self.connection.execute("SELECT name FROM sqlar;")
+            posixpath.normpath(name.lstrip('/')) != name or ('/' in name and posixpath.dirname(name) not in names)
+            for name in names
         ):
-            self._files = {
-                posixpath.normpath(name.lstrip('/')): rowid
-                for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;")
-            }
+            for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;"):
+                normalizedName = posixpath.normpath(name.lstrip('/'))
+                if normalizedName == '.':
+                    continue
+                self._files[normalizedName] = rowid
+                parent = posixpath.dirname(normalizedName)
+                while parent:
+                    self._files.setdefault(parent, None)
+                    parent = posixpath.dirname(parent)
 
     @staticmethod
     def _quick_check_file(fileObject: IO[bytes], name: str, passwords: Optional[Sequence[bytes]]) -> bytes:
@@ -277,7 +285,7 @@ class SQLARMountSource(MountSource):
         return True
 
     def _list_names(self, path: str) -> Optional[Iterable[str]]:
-        if not self._files:
+        if not self._files or not self._is_folder(path):
             return None
 
         path = path.lstrip('/')
@@ -336,11 +344,12 @@ class SQLARMountSource(MountSource):
             return create_root_file_info([-1])
 
         if self._files:
-            path = path.lstrip('/')
-            # We assume here that all parent folders to files appear in the table.
+            path = path.strip('/')
             if path not in self._files:
                 return None
             rowid = self._files[path]
+            if rowid is None:
+                return create_root_file_info([-1])
 
             result = self.connection.execute(
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE rowid=(?)", (rowid,)
-- 
2.43.0


From 703bf48f17960b03497dcbfed2b79c18726424f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 008/125] fix: look up long names in AR archives by their byte
 offset

---
 core/ratarmountcore/mountsource/formats/ar.py | 29 +++++--------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 6e4e8a4..ef70e7c 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -72,9 +72,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     POSIX_SYMBOL_TABLE_NAME = b'/'
     GNU_INDEX_NAME = b'//'
     BSD_LONG_NAME_PREFIX = b'#1/'
-    # For thin archives, it simply is bytes because for some reason thin archives use byte indexes while
-    # normal archives index by file name entry.
-    long_names: Optional[Union[bytes, list[bytes]]] = None
+    # References to long names are byte offsets into this table.
+    long_names: Optional[bytes] = None
 
     # It could be argued that the special 'debian-binary' text file could be ignored because it should be
     # interpreted as some kind of magic bytes, but I am not fully convinced of that. Simply also display
@@ -84,13 +83,9 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
         if long_names and name.startswith(b'/') and name[1:].isdigit():
             index = int(name[1:])
             if index >= 0 and index < len(long_names):
-                if not is_thin:
-                    return long_names[index]
-
-                if isinstance(long_names, bytes):  # Should always be the case for is_thin.
-                    end = long_names.find(b'/\n', index)
-                    if end >= index:
-                        return long_names[index:end]
+                # Names are terminated by "/\n" in GNU archives and by a null byte in COFF archives.
+                ends = [end for end in (long_names.find(b'/\n', index), long_names.find(b'\0', index)) if end >= index]
+                return long_names[index : min(ends)] if ends else long_names[index:]
         return name
 
     while header_data := fileObject.read(HEADER_SIZE):
@@ -138,17 +133,9 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
             continue
 
         if name == GNU_INDEX_NAME:
-            if is_thin:
-                long_names = fileObject.read(size)
-            else:
-                long_names = fileObject.read(size).split(b'/\n')
-
-                # GNU ar pads the table internally to an even size.
-                if size % 2 == 0:
-                    if long_names and long_names[-1] in (b'\x60', b'\x0a'):
-                        long_names.pop()
-                else:
-                    fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
+            # GNU ar pads the table internally to an even size.
+            long_names = fileObject.read(size)
+            fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
 
             # Retroactively apply the index if it is not the very first entry in the archive.
             for file in files:
-- 
2.43.0


From 88b8a7ae5927d2ed815e164587747d040c499ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 009/125] fix: do not return bytes from behind the end of a
 file in SQLiteIndexedTar.read

---
 core/ratarmountcore/mountsource/formats/tar.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 55576c3..89e8dd6 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1104,18 +1104,6 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 buffering,
             )
 
-    @overrides(MountSource)
-    def read(self, fileInfo: FileInfo, size: int, offset: int) -> bytes:
-        tarFileInfo = SQLiteIndex.get_index_userdata(fileInfo.userdata)
-        if tarFileInfo.issparse:
-            with self.open(fileInfo) as file:
-                file.seek(offset, os.SEEK_SET)
-                return file.read(size)
-
-        # For non-sparse files, we can simply seek to the offset and read from it.
-        self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
-        return self.tarFileObject.read(size)
-
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
         return {
-- 
2.43.0


From de2978e4164a24a2be60274aa8328567836e4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 010/125] fix: return the right bytes after seeking in a stored
 ZIP member while another member is read

---
 core/ratarmountcore/mountsource/formats/zip.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 894316a..40828c2 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -1,5 +1,6 @@
 import contextlib
 import datetime
+import io
 import logging
 import stat
 import sys
@@ -144,4 +145,19 @@ class ZipMountSource(SQLiteIndexMountSource):
         # same underlying file object concurrently by using a _SharedFile class that even includes a lock.
         # Very nice!
         # https://github.com/python/cpython/blob/a87c46eab3c306b1c5b8a072b7b30ac2c50651c0/Lib/zipfile/__init__.py#L1569
-        return self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+        file = self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+
+        # ZipExtFile.seek skips over stored data with a relative seek. But, in some Python versions, _SharedFile.seek
+        # forwards that to the shared file object, whose position is that of the file object that was last read from.
+        shared = getattr(file, '_fileobj', None)
+        if isinstance(shared, getattr(zipfile, '_SharedFile', ())):
+            seek = shared.seek
+
+            def seek_absolute(offset: int, whence: int = io.SEEK_SET) -> int:
+                if whence == io.SEEK_CUR:
+                    return seek(shared.tell() + offset, io.SEEK_SET)
+                return seek(offset, whence)
+
+            shared.seek = seek_absolute
+
+        return file
-- 
2.43.0


From 1fe648a8a29a690fe682a81e0025369239a2e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 011/125] fix: implement readinto for files in archives opened
 with libarchive

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 7b9e3df..a037a3d 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -468,6 +468,14 @@ class LibarchiveFile(io.RawIOBase):
             result.extend(read_data)
         return bytes(result)
 
+    @overrides(io.RawIOBase)
+    def readinto(self, buffer):
+        """Generic implementation which uses read."""
+        with memoryview(buffer) as view, view.cast("B") as byteView:  # type: ignore
+            readBytes = self.read(len(byteView))
+            byteView[: len(readBytes)] = readBytes
+        return len(readBytes)
+
     def _skip(self, size: int) -> None:
         if not self._bufferIO:
             raise RuntimeError("Closed file cannot be read from!")
-- 
2.43.0


From a4580b33cbaea8baa1ff0d7f60703e2c5700e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 012/125] fix: report the position after reading from SquashFS
 files

---
 core/ratarmountcore/mountsource/formats/squashfs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6e99e9b..43fb9d8 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -214,12 +214,13 @@ class SquashFSFile(io.RawIOBase):
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
         # An empty buffer signals the end of the file!
-        if result or not self._buffer:
-            return result
+        if not result and self._buffer:
+            self._blockIndex += 1
+            self._refill_buffer(self._blockIndex)
+            result = self._bufferIO.read(size)
 
-        self._blockIndex += 1
-        self._refill_buffer(self._blockIndex)
-        return self._bufferIO.read(size)
+        self._offset += len(result)
+        return result
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
-- 
2.43.0


From fb448b76dda03db584528de1d74c02de90fe44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 013/125] fix: return nothing instead of raising when reading
 behind the end of a file in an SQLAR

---
 core/ratarmountcore/StenciledFile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..0e831d8 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -386,7 +386,10 @@ class LambdaReaderFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
-        result = self.rawRead(self.offset, min(self.size if size < 0 else size, max(0, self.size - self.offset)))
+        size = min(self.size if size < 0 else size, max(0, self.size - self.offset))
+        if size == 0:
+            return b''  # The offset may lie behind the end of the file.
+        result = self.rawRead(self.offset, size)
         self.offset += len(result)
         return result
 
-- 
2.43.0


From d551d606ca2b9c1792872c77e09a9a20ee964f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 014/125] fix: report paths below files in EXT4 images as
 absent instead of raising

---
 core/ratarmountcore/mountsource/formats/ext4.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 15bb35a..582a8a0 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -75,14 +75,14 @@ class EXT4MountSource(MountSource):
     def exists(self, path: str) -> bool:
         try:
             self.fileSystem.inode_at(path)
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             return False
         return True
 
     def _list(self, path: str, getValue) -> Optional[dict[str, Any]]:
         try:
             inode = self.fileSystem.inode_at(path)
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             return None
 
         if not isinstance(inode, ext4.inode.Directory):
@@ -106,7 +106,7 @@ class EXT4MountSource(MountSource):
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         try:
             return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             pass
         return None
 
-- 
2.43.0


From edd3c0981bc0ce5845d9551f46740e045ca0b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 015/125] fix: show the targets of symbolic links in EXT4
 images

---
 core/ratarmountcore/mountsource/formats/ext4.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 582a8a0..4116e2f 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -53,14 +53,14 @@ class EXT4MountSource(MountSource):
         self.fileSystem = ext4.Volume(self.fileObject)
         self.options = options
 
-    @staticmethod
-    def _convert_ext4_directory_entry_to_file_info(inode) -> FileInfo:
+    def _convert_ext4_directory_entry_to_file_info(self, inode) -> FileInfo:
+        isLink = isinstance(inode, ext4.inode.SymbolicLink)
         # fmt: off
         return FileInfo(
             size     = inode.i_size,
             mtime    = inode.i_mtime,
             mode     = inode.i_mode.value if hasattr(inode.i_mode, 'value') else inode.i_mode,
-            linkname = "",  # TODO I don't see any data for links... in the Inode struct
+            linkname = inode.readlink().decode(self.encoding, 'surrogateescape') if isLink else "",
             uid      = inode.i_uid,
             gid      = inode.i_gid,
             userdata = [inode.i_no],
@@ -96,7 +96,7 @@ class EXT4MountSource(MountSource):
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-        return self._list(path, EXT4MountSource._convert_ext4_directory_entry_to_file_info)
+        return self._list(path, self._convert_ext4_directory_entry_to_file_info)
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-- 
2.43.0


From c922102593e64501ef9ce164666c39bacd7b17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 016/125] fix: do not append bytes of the next entry to file
 names in EXT4 images

---
 core/ratarmountcore/mountsource/formats/ext4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 4116e2f..cb1e5de 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -89,9 +89,9 @@ class EXT4MountSource(MountSource):
             return None
 
         return {
-            entry.name.decode(self.encoding): getValue(self.fileSystem.inodes[entry.inode])
+            entry.name_bytes.decode(self.encoding): getValue(self.fileSystem.inodes[entry.inode])
             for entry, _ in inode.opendir()
-            if entry.name not in (b'.', b'..')
+            if entry.name_bytes not in (b'.', b'..')
         }
 
     @overrides(MountSource)
-- 
2.43.0


From 69a4bc91c95561fdd8e1147d8b63c12f8b14896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 017/125] fix: report paths below files in Git repositories as
 absent

---
 core/ratarmountcore/mountsource/formats/git.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index 683b0ed..d94e987 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -52,8 +52,8 @@ class GitMountSource(MountSource):
     def _look_up_path(self, path: str) -> Optional[Any]:
         tree: Any = self.tree
         for name in self.prefix.split("/") + path.split("/"):
-            if name and isinstance(tree, pygit2.Tree):
-                if name not in tree:
+            if name:
+                if not isinstance(tree, pygit2.Tree) or name not in tree:
                     return None
                 tree = tree[name]
         return tree
-- 
2.43.0


From 3c3566d50ae5f02ba65408ba69e3a57899fb3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 018/125] fix: use the time of the mounted commit instead of
 the checked out one for Git repositories

---
 core/ratarmountcore/mountsource/formats/git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index d94e987..ea5e45a 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -30,7 +30,7 @@ class GitMountSource(MountSource):
         self.reference = reference or self._get_default_reference(self.repository)
         commit, reference = self.repository.resolve_refish(self.reference)  # type: ignore
         self.tree = commit.tree
-        self.commitTime = self.repository[self.repository.head.target].commit_time  # type: ignore
+        self.commitTime = commit.commit_time
         self.prefix = ""
 
     @staticmethod
-- 
2.43.0


From 155925e0433ec8a4c079ae799cc136358df0697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 019/125] fix: stop reading at the end of files in EXT4 images,
 implement readinto, and lock the shared volume

---
 .../mountsource/formats/ext4.py               | 95 ++++++++++++++++---
 1 file changed, 80 insertions(+), 15 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index cb1e5de..01c6e80 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -1,6 +1,8 @@
+import io
+import threading
 import types
 from collections.abc import Iterable
-from typing import IO, Any, Optional, Union
+from typing import IO, Any, Optional, Union, cast
 
 from ratarmountcore.formats import FileFormatID, replace_format_check
 from ratarmountcore.mountsource import FileInfo, MountSource
@@ -30,6 +32,62 @@ def is_ext4_image(fileObject) -> bool:
 replace_format_check(FileFormatID.EXT4, is_ext4_image)
 
 
+class EXT4File(io.RawIOBase):
+    """
+    Wraps the file objects returned by ext4, which return whole blocks when reading beyond the end of the file,
+    do not implement readinto, and share the position inside the image with everything else using the volume.
+    """
+
+    def __init__(self, fileObject, size: int, lock) -> None:
+        super().__init__()
+        self._fileObject = fileObject
+        self._size = size
+        self._lock = lock
+        self._offset = 0
+
+    @overrides(io.RawIOBase)
+    def close(self) -> None:
+        if not self.closed:
+            self._fileObject.close()
+        super().close()
+
+    @overrides(io.RawIOBase)
+    def readable(self) -> bool:
+        return True
+
+    @overrides(io.RawIOBase)
+    def seekable(self) -> bool:
+        return True
+
+    @overrides(io.RawIOBase)
+    def readinto(self, buffer):
+        with memoryview(buffer) as view, view.cast("B") as byteView:  # type: ignore
+            size = min(len(byteView), self._size - self._offset)
+            if size <= 0:
+                return 0
+            with self._lock:
+                self._fileObject.seek(self._offset)
+                readBytes = self._fileObject.read(size)
+            byteView[: len(readBytes)] = readBytes
+        self._offset += len(readBytes)
+        return len(readBytes)
+
+    @overrides(io.RawIOBase)
+    def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        if whence == io.SEEK_CUR:
+            offset += self._offset
+        elif whence == io.SEEK_END:
+            offset += self._size
+        if offset < 0:
+            raise ValueError("Trying to seek before the start of the file!")
+        self._offset = offset
+        return self._offset
+
+    @overrides(io.RawIOBase)
+    def tell(self) -> int:
+        return self._offset
+
+
 class EXT4MountSource(MountSource):
     def __init__(self, fileOrPath: Union[str, IO[bytes]], encoding: str = 'utf8', **options) -> None:
         if ext4 is None:
@@ -50,6 +108,8 @@ class EXT4MountSource(MountSource):
 
             self.fileObject.peek = types.MethodType(_dummy_peek, self.fileObject)  # type: ignore
 
+        # The volume has one position and caches which are shared by all files and lookups.
+        self.lock = threading.RLock()
         self.fileSystem = ext4.Volume(self.fileObject)
         self.options = options
 
@@ -74,25 +134,27 @@ class EXT4MountSource(MountSource):
     @overrides(MountSource)
     def exists(self, path: str) -> bool:
         try:
-            self.fileSystem.inode_at(path)
+            with self.lock:
+                self.fileSystem.inode_at(path)
         except (FileNotFoundError, NotADirectoryError):
             return False
         return True
 
     def _list(self, path: str, getValue) -> Optional[dict[str, Any]]:
-        try:
-            inode = self.fileSystem.inode_at(path)
-        except (FileNotFoundError, NotADirectoryError):
-            return None
+        with self.lock:
+            try:
+                inode = self.fileSystem.inode_at(path)
+            except (FileNotFoundError, NotADirectoryError):
+                return None
 
-        if not isinstance(inode, ext4.inode.Directory):
-            return None
+            if not isinstance(inode, ext4.inode.Directory):
+                return None
 
-        return {
-            entry.name_bytes.decode(self.encoding): getValue(self.fileSystem.inodes[entry.inode])
-            for entry, _ in inode.opendir()
-            if entry.name_bytes not in (b'.', b'..')
-        }
+            return {
+                entry.name_bytes.decode(self.encoding): getValue(self.fileSystem.inodes[entry.inode])
+                for entry, _ in inode.opendir()
+                if entry.name_bytes not in (b'.', b'..')
+            }
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
@@ -105,7 +167,8 @@ class EXT4MountSource(MountSource):
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         try:
-            return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
+            with self.lock:
+                return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
         except (FileNotFoundError, NotADirectoryError):
             pass
         return None
@@ -118,7 +181,9 @@ class EXT4MountSource(MountSource):
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         inode = fileInfo.userdata[-1]
         assert isinstance(inode, int)
-        return self.fileSystem.inodes[inode].open()
+        with self.lock:
+            file = self.fileSystem.inodes[inode]
+            return cast(IO[bytes], EXT4File(file.open(), file.i_size, self.lock))
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-- 
2.43.0


From 0d2ffb3040772f7a950ee2f68e8d3193046a8904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 020/125] fix: read to the end when requesting all data from
 parallel block readers

---
 core/ratarmountcore/BlockParallelReaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..5b72dcb 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -155,6 +155,9 @@ class BlockParallelReader(io.BufferedIOBase):
         if blockNumber is None:
             return b""
 
+        availableFileSize = self.blockBoundaries[-1] - self._offset
+        size = availableFileSize if size is None or size < 0 else min(size, availableFileSize)
+
         self.requestCount += 1
         firstBlockOffset = self._offset - self.blockBoundaries[blockNumber]
         blockSize = self._block_size(self.blockBoundaries, blockNumber)
-- 
2.43.0


From 179baf85e8654faf8555a301f6b1bd60454293ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 021/125] fix: do not write an index to disk when writing
 indexes is not requested

---
 core/ratarmountcore/SQLiteIndex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index f94d6d7..bc04b80 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -765,6 +765,8 @@ class SQLiteIndex:
         if writeIndex and (self._requestedIndexFilePath or not isFileObject):
             self.open_writable()
         else:
+            # Also do not allow to move the index to disk later, e.g., because of many files or for seek points.
+            self.possibleIndexFilePaths = [':memory:']
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
 
         self.create_index_timed(create_index)
-- 
2.43.0


From c4af5b03ef586465421cf05255643a14b2f00c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 022/125] fix: find the original name in gzip headers with
 extra fields and do not loop forever on truncated ones

---
 core/ratarmountcore/compressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index bcf7c11..5a6162e 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -391,12 +391,14 @@ def get_gzip_info(fileobj: IO[bytes]) -> Optional[tuple[str, int]]:
         return None
 
     if flags & (1 << 2) != 0:
-        fileobj.read(struct.unpack('<U', fileobj.read(2))[0])
+        fileobj.read(struct.unpack('<H', fileobj.read(2))[0])
 
     if flags & (1 << 3) != 0:
         name = b''
         c = fileobj.read(1)
         while c != b'\0':
+            if not c:
+                return None
             name += c
             c = fileobj.read(1)
         return name.decode(), mtime
-- 
2.43.0


From 9def2299034c53324d26324c50780b6291f6d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 023/125] fix: show hard links in archives opened with
 libarchive as the files they refer to instead of as broken symbolic links

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index a037a3d..32b224f 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -131,11 +131,15 @@ class ArchiveEntry:
 
         mode = self.mode() & 0o777
         linkname = self.linkname()
-        if linkname:
+        if self.is_symbolic_link():
             mode = mode | stat.S_IFLNK
-        else:
+            linkname = linkname or ""
+        elif not linkname or size > 0:
+            # Hard links may also come with their own contents, e.g., in CPIO archives.
             linkname = ""
             mode = mode | (stat.S_IFDIR if self.is_directory() else stat.S_IFREG)
+        # Else, it is a hard link, which is stored without a file type like SQLiteIndexedTar does.
+        # Its target is relative to the archive root, not to its parent folder like for symbolic links.
 
         if not path:
             path = self.path()
-- 
2.43.0


From 583abe7b60bd4687683859b1a868aebbef99f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 024/125] fix: do not look for other index locations when
 writing indexes is not requested

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index bc04b80..f080dab 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -766,7 +766,7 @@ class SQLiteIndex:
             self.open_writable()
         else:
             # Also do not allow to move the index to disk later, e.g., because of many files or for seek points.
-            self.possibleIndexFilePaths = [':memory:']
+            self.possibleIndexFilePaths = []
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
 
         self.create_index_timed(create_index)
-- 
2.43.0


From 2d8f17f9ff7ed60c265d50737add190d244b569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 025/125] fix: do not create a file named :memory: in the
 current folder when falling back to an index in memory

---
 core/ratarmountcore/SQLiteIndex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index f080dab..ec7d955 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -596,6 +596,10 @@ class SQLiteIndex:
     @staticmethod
     def _path_can_be_used_for_sqlite(path: str) -> bool:
         # Also creates parent folders if necessary. Returns false if a file already exists.
+        if path == ':memory:':
+            # Not an actual path. Do not try to create a file with that name in the current working directory.
+            return True
+
         if not ensure_writable_path(path):
             return False
 
-- 
2.43.0


From 105c01a96442cdc2fb67b8145d8bcc453c3f6ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 026/125] fix: keep the index in memory when there is no usable
 location to move it to

---
 core/ratarmountcore/SQLiteIndex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index ec7d955..d96c086 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -686,7 +686,9 @@ class SQLiteIndex:
         self.open_writable()
         if oldIndexFilePath == self.indexFilePath:
             logger.info("Tried to write the database to disk but found no other path than: %s", self.indexFilePath)
-            self.sqlConnection.close()
+            # The connection is unchanged when there is no usable location at all.
+            if self.sqlConnection is not oldSqlConnection:
+                self.sqlConnection.close()
             self.indexFilePath, self.sqlConnection = oldIndexFilePath, oldSqlConnection
             return
 
-- 
2.43.0


From 66b91ab2766de70b56ec32f9b218701276efdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 027/125] fix: close the index of SquashFS images when closing
 the mount source

The database is locked exclusively, so that the image could not be opened again with its stored index.
---
 core/ratarmountcore/mountsource/formats/squashfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 43fb9d8..30dbe51 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -465,6 +465,8 @@ class SquashFSMountSource(SQLiteIndexMountSource):
 
     @overrides(SQLiteIndexMountSource)
     def close(self) -> None:
+        super().close()
+
         if rawFileObject := getattr(self, 'rawFileObject', None):
             rawFileObject.close()
 
-- 
2.43.0


From d500c82bb9dc5e4ccaa66ca837428b7ea20e4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 028/125] fix: do not overwrite the metadata of a complete
 index when loading it

Writing it failed for all archives but TARs while the same archive was already mounted with that index.
---
 core/ratarmountcore/SQLiteIndex.py                        | 7 +++++++
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index d96c086..31922e7 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -492,6 +492,13 @@ class SQLiteIndex:
         self.store_metadata_key_value('arguments', metadata)
         self.store_metadata_key_value('backendName', self.backendName)
 
+    def has_metadata(self) -> bool:
+        connection = self.get_connection()
+        return (
+            'metadata' in get_sqlite_tables(connection)
+            and connection.execute('SELECT 1 FROM "metadata" LIMIT 1;').fetchone() is not None
+        )
+
     def drop_metadata(self):
         self.get_connection().executescript("DELETE FROM metadata; DELETE FROM versions;")
 
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..518b627 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -221,7 +221,11 @@ class SQLiteIndexMountSource(MountSource):
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
             self._compute_and_store_hashes()
-            callable_store_metadata()
+            # The metadata is only missing if the index creation was interrupted after creating the 'files' table.
+            # Else, do not change what has been stored about the archive at the time of index creation. Moreover,
+            # writing would fail when the archive is already mounted with this index because that locks the database.
+            if not self.index.has_metadata():
+                callable_store_metadata()
             self.index.reload_index_read_only()
             return
 
-- 
2.43.0


From 89789df791cd00b659a432133128947961afa87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 029/125] fix: find the targets of hard links in nested TARs
 and with a path transformation

The index contained the link target relative to the nested archive, which was then looked up in the outermost one.
---
 core/ratarmountcore/mountsource/formats/tar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 89e8dd6..446ba34 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -241,6 +241,12 @@ class _TarFileMetadataReader:
             fullPath += "/"
         path, name = SQLiteIndex.normpath(transform(fullPath)).rsplit("/", 1)
 
+        # The targets of hard links are names of members in the same archive and have to be found under the path
+        # at which those members are shown.
+        linkname = tarInfo.linkname
+        if tarInfo.islnk():
+            linkname = SQLiteIndex.normpath(transform(pathPrefix + "/" + linkname)).lstrip('/')
+
         # TODO: As for the tarfile type SQLite expects int but it is generally bytes.
         #       Most of them would be convertible to int like tarfile.SYMTYPE which is b'2',
         #       but others should throw errors, like GNUTYPE_SPARSE which is b'S'.
@@ -255,7 +261,7 @@ class _TarFileMetadataReader:
             tarInfo.mtime                                   ,  # 5  : modification time
             _TarFileMetadataReader._tar_info_full_mode(tarInfo),  # 6  : file mode / permissions
             tarInfo.type                                    ,  # 7  : TAR file type. Currently unused.
-            tarInfo.linkname                                ,  # 8  : linkname
+            linkname                                        ,  # 8  : linkname
             tarInfo.uid                                     ,  # 9  : user ID
             tarInfo.gid                                     ,  # 10 : group ID
             False                                           ,  # 11 : is TAR (unused?)
-- 
2.43.0


From 1a3637d8256fc92dfc4a10c63f419bc3721a3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 030/125] fix: show hard links to recursively mounted archives
 as files

They were shown as folders that cannot be listed.
---
 core/ratarmountcore/mountsource/compositing/versioning.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..c42e17f 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -137,6 +137,13 @@ class FileVersionLayer(MountSource):
 
             path = resolvedPath
             fileInfo = mountSource.lookup(path, fileVersion)
+            if fileInfo and stat.S_ISDIR(fileInfo.mode):
+                # Hard links cannot point to folders. This is an archive that has been mounted at the path of the file.
+                for version in range(mountSource.versions(path), 0, -1):
+                    olderFileInfo = mountSource.lookup(path, version)
+                    if olderFileInfo and not stat.S_ISDIR(olderFileInfo.mode):
+                        fileInfo = olderFileInfo
+                        break
             if not fileInfo:
                 return None
 
-- 
2.43.0


From 0901c8ff7a7b5567d92f263037c483f6b8a29146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 031/125] fix: do not use the index of an archive that has
 grown

Only TARs check for appended files. All other archives were shown as they were when the index was created.
---
 core/ratarmountcore/SQLiteIndex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 31922e7..f451af0 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -545,10 +545,10 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
-- 
2.43.0


From 6ff5c4627bc260deca0089208eb741ba2c59c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 032/125] fix: open LZMA-compressed SquashFS images with blocks
 smaller than the metadata blocks

---
 core/ratarmountcore/mountsource/formats/squashfs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 30dbe51..23a34dd 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -131,10 +131,15 @@ class LZMACompressor(Compressor):
         # uncompressed size, which can be read with struct.unpack('<Q', src[5:5+8]))
         LZMA_PROPS_SIZE = 5
         LZMA_HEADER_SIZE = LZMA_PROPS_SIZE + 8
+        # Metadata blocks have up to 8 KiB even if the block size for file contents is smaller.
+        METADATA_BLOCK_SIZE = 8192
         return self._lib.decompress(
             src[LZMA_HEADER_SIZE:],
             format=self._lib.FORMAT_RAW,
-            filters=[{"id": self._lib.FILTER_LZMA1, 'lc': 3, 'lp': 0, 'pb': 2, 'dict_size': self._block_size}],
+            filters=[{
+                "id": self._lib.FILTER_LZMA1, 'lc': 3, 'lp': 0, 'pb': 2,
+                'dict_size': max(self._block_size, METADATA_BLOCK_SIZE)
+            }],
         )
 
 
-- 
2.43.0


From cf16b5eb1d1d2384df32ab7549d6828cdabdc740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:46 +0000
Subject: [PATCH 033/125] fix: do not use an index after an error while loading
 it

---
 core/ratarmountcore/SQLiteIndex.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index f451af0..ecdb558 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1369,6 +1369,13 @@ class SQLiteIndex:
         except MismatchingIndexError as e:
             raise e
         except Exception as exception:
+            # The connection might still be open if the exception did not come from one of the checks. In that case,
+            # the faulty index must not be treated as loaded because its 'files' table might look complete.
+            if self.sqlConnection:
+                with contextlib.suppress(sqlite3.Error):
+                    self.sqlConnection.close()
+                self.sqlConnection = None
+
             logger.warning(
                 "Could not load file: %s because of: %s",
                 indexFilePath,
-- 
2.43.0


From b2953cef5e48a44b2f32235aa6be9b03e4d317a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 034/125] fix: do not mistake the remains of a test for
 writability for an index

---
 core/ratarmountcore/SQLiteIndex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index ecdb558..895a75e 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -612,7 +612,8 @@ class SQLiteIndex:
 
         try:
             connection = SQLiteIndex._open_sql_db(path)
-            connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
+            # Do not call it "files" or else it would be mistaken for an index if it does not get removed.
+            connection.executescript('CREATE TABLE "test" ( "path" VARCHAR(65535) NOT NULL );')
             connection.commit()
             connection.close()
             return True
-- 
2.43.0


From 8b0bccdb9028cd707597212109b96b0e61558f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 035/125] fix: recognize indexes whose creation was killed at
 any point as incomplete

---
 core/ratarmountcore/SQLiteIndex.py            | 11 ++++-----
 core/ratarmountcore/create-index-tables.sql   | 17 ++++++-------
 .../mountsource/SQLiteIndexMountSource.py     | 24 ++++++++++++-------
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 895a75e..34a5d88 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -492,13 +492,6 @@ class SQLiteIndex:
         self.store_metadata_key_value('arguments', metadata)
         self.store_metadata_key_value('backendName', self.backendName)
 
-    def has_metadata(self) -> bool:
-        connection = self.get_connection()
-        return (
-            'metadata' in get_sqlite_tables(connection)
-            and connection.execute('SELECT 1 FROM "metadata" LIMIT 1;').fetchone() is not None
-        )
-
     def drop_metadata(self):
         self.get_connection().executescript("DELETE FROM metadata; DELETE FROM versions;")
 
@@ -1319,6 +1312,10 @@ class SQLiteIndex:
 
             if 'metadata' in tables:
                 metadata = dict(self.sqlConnection.execute('SELECT * FROM metadata;'))
+                # Metadata is only stored after the 'files' table has been completely written out.
+                if not metadata:
+                    raise InvalidIndexError("SQLite index is incomplete")
+
                 if checkMetadata:
                     self.check_metadata_backend(metadata)
                     checkMetadata(metadata)
diff --git a/core/ratarmountcore/create-index-tables.sql b/core/ratarmountcore/create-index-tables.sql
index e7e3091..2d20e0c 100644
--- a/core/ratarmountcore/create-index-tables.sql
+++ b/core/ratarmountcore/create-index-tables.sql
@@ -1,5 +1,14 @@
 /* This whole file should be idempotent, i.e., executing it twice in a row should work (use IF NOT EXISTS). */
 
+/* Table for storing information regarding the options used for creating the index.
+ * Common keys: tarstats, arguments, isGnuIncremental, backendName
+ * It must be created first because an index without any metadata is recognized as incomplete. */
+CREATE TABLE IF NOT EXISTS "metadata" (
+    "key"      VARCHAR(65535) NOT NULL, /* e.g. "tarsize" */
+    "value"    VARCHAR(65535) NOT NULL, /* e.g. size in bytes as integer */
+    PRIMARY KEY ("key")
+);
+
 CREATE TABLE IF NOT EXISTS "files" (
     "path"           VARCHAR(65535) NOT NULL,  /* path with leading and without trailing slash */
     "name"           VARCHAR(65535) NOT NULL,
@@ -76,14 +85,6 @@ CREATE TABLE IF NOT EXISTS "parentfolders" (
     PRIMARY KEY ("path","name")
 );
 
-/* Table for storing information regarding the options used for creating the index.
- * Common keys: tarstats, arguments, isGnuIncremental, backendName */
-CREATE TABLE IF NOT EXISTS "metadata" (
-    "key"      VARCHAR(65535) NOT NULL, /* e.g. "tarsize" */
-    "value"    VARCHAR(65535) NOT NULL, /* e.g. size in bytes as integer */
-    PRIMARY KEY ("key")
-);
-
 /* Similar to metadata but explicitly for versions. Common keys: ratarmount, index */
 CREATE TABLE IF NOT EXISTS "versions" (
     "name"     VARCHAR(65535) NOT NULL, /* which component the version belongs to */
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 518b627..6e6bb39 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -5,6 +5,7 @@ import json
 import logging
 import re
 import shutil
+import sqlite3
 import tempfile
 from collections.abc import Iterable
 from typing import IO, Any, Callable, Optional, Union
@@ -116,7 +117,7 @@ class SQLiteIndexMountSource(MountSource):
             self.index.try_to_open_first_file(lambda path: self.open(self.lookup(path)))
 
     def _compute_and_store_hashes(self) -> None:
-        if not self.hashes:
+        if not self.hashes or self.index.readOnly:
             return
 
         # We want to find all rows in "files" that are missing any of the self.hashes in "xattrs".
@@ -154,6 +155,11 @@ class SQLiteIndexMountSource(MountSource):
             HAVING COUNT(DISTINCT xattrs.key) < ?
         )'''
 
+        # Without a journal, being killed while writing might leave the index with partially written hashes.
+        # The journal mode can only be changed outside of transactions.
+        self.index.get_connection().commit()
+        self.index.get_connection().execute('PRAGMA JOURNAL_MODE = DELETE;')
+
         totals = (
             self.index.get_connection()
             .execute(f'SELECT SUM(size) FROM {subquery};', (*required_xattrs, len(required_xattrs)))
@@ -215,30 +221,30 @@ class SQLiteIndexMountSource(MountSource):
         store_metadata: Optional[Callable[[], None]] = None,
         isFileObject: Optional[bool] = None,
     ):
-        callable_store_metadata = store_metadata if callable(store_metadata) else self._store_default_metadata
         if self.index.index_is_loaded():
             # index_is_loaded checks for completed 'files' (stats etc.) table.
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
-            self._compute_and_store_hashes()
-            # The metadata is only missing if the index creation was interrupted after creating the 'files' table.
-            # Else, do not change what has been stored about the archive at the time of index creation. Moreover,
-            # writing would fail when the archive is already mounted with this index because that locks the database.
-            if not self.index.has_metadata():
-                callable_store_metadata()
+            try:
+                self._compute_and_store_hashes()
+            except sqlite3.OperationalError as exception:
+                logger.warning("Failed to add missing hashes to the index: %s", exception)
             self.index.reload_index_read_only()
             return
 
+        callable_store_metadata = store_metadata if callable(store_metadata) else self._store_default_metadata
+
         def create_index_and_post_process(index=self.index):
             create_index()
             # Finalize the 'files' table from 'filestmp' and 'parentfolders' so that
             # the by magnitudes costlier checksumming can be interrupted and resumed.
             index.finalize()
+            # The metadata also marks the 'files' table as complete for later index loading.
+            callable_store_metadata()
             self._compute_and_store_hashes()
 
         self.index.finalize_index(
             create_index=create_index_and_post_process,
-            store_metadata=callable_store_metadata,
             isFileObject=isFileObject,
             writeIndex=self.writeIndex,
         )
-- 
2.43.0


From 30930547ad8679fc8a5afa9b943bbe2d620d2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 036/125] fix: compute missing hashes of TARs and do not append
 to a complete index

---
 core/ratarmountcore/mountsource/formats/tar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 446ba34..7b75223 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -701,7 +701,8 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         if self.index.index_is_loaded():
             if not self.hasBeenAppendedTo:  # indirectly set by a successful call to _try_load_index
                 self._load_or_store_compression_offsets()  # load
-                self.index.reload_index_read_only()
+                # Also compute hashes that are missing because the previous computation was interrupted.
+                self._finalize_index(create_index=lambda: None)
                 return
 
             # TODO Handling appended files to compressed archives would have to account for dropping the offsets,
@@ -721,11 +722,12 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 appendedPartAsFile = StenciledFile(
                     fileStencils=[(self.tarFileObject, pastEndOffset, archiveSize - pastEndOffset)]
                 )
+                # An index without metadata counts as incomplete when this gets interrupted.
+                self.index.drop_metadata()
                 self.index.create_index_timed(
                     create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
                 )
 
-                self.index.drop_metadata()
                 self._store_metadata()
                 self.index.reload_index_read_only()
                 return
-- 
2.43.0


From f85c3c8f0a85df80538841870e911eda0fe8cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 037/125] fix: find the end of TARs with recursively indexed or
 sparse members and recreate mismatching indexes when appended to

---
 .../ratarmountcore/mountsource/formats/tar.py | 52 ++++++++++++-------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 7b75223..7fc950d 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -729,11 +729,16 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 )
 
                 self._store_metadata()
+                self._compute_and_store_hashes()
                 self.index.reload_index_read_only()
                 return
 
+            indexFilePath = self.index.indexFilePath
             self.index.close()
             logger.warning("The loaded index does not match the archive. Will recreate it.")
+            # Existing files do not get overwritten.
+            if indexFilePath and os.path.isfile(indexFilePath):
+                os.remove(indexFilePath)
 
         # At this point, self.index.index_is_loaded() should return false because either it was false already
         # or the preemptive return was triggered above or the index was closed at the end of the above branch!
@@ -1123,14 +1128,10 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             'f_favail': 0,
         }
 
-    @staticmethod
-    def _get_past_end_offset(sqlConnection: sqlite3.Connection) -> Optional[int]:
+    def _get_past_end_offset(self, sqlConnection: sqlite3.Connection) -> Optional[int]:
         """
-        Returns None if it cannot determine where the archive should end. Currently, because of implementation
-        limitations, this may happen if the last entry in the archive is a sparse file.
+        Returns None if it cannot determine where the archive should end, e.g., for indexes created with old versions.
         """
-        # TODO Make it work with sparse files by analyzing those sparse blocks manually or maybe get tarfile to do it
-
         # Note that we cannot use the recorded archive file size to determine from which we need to resume
         # reading because it is not specified how many zero-byte blocks there may be at the end:
         # > At the end of the archive file there shall be two 512-byte blocks filled with binary zeros,
@@ -1139,21 +1140,36 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         # files right after the the last non-zero block, which might be at offset 512 for empty files.
         # > The user can specify a blocking factor, which is the number of blocks per record.
         # > The default is 20, producing 10 KiB records.
-        result = sqlConnection.execute(
-            "SELECT offset + size, issparse FROM files ORDER BY offset DESC LIMIT 1"
-        ).fetchone()
+        #
+        # Ignore members of recursively indexed TARs because there is more, e.g., end-of-archive blocks, after those.
+        # Grouping is necessary because the rows for their generated parent folders have the same offset but depth 0.
+        try:
+            result = sqlConnection.execute(
+                "SELECT offsetheader FROM files WHERE offsetheader IS NOT NULL "
+                "GROUP BY offsetheader HAVING MAX(recursiondepth) == 0 ORDER BY offsetheader DESC LIMIT 1"
+            ).fetchone()
+        except sqlite3.OperationalError:
+            return None
         if not result:
-            raise InvalidIndexError("The index contains no files!")
-        pastEndOffset, isSparse = result
-
-        if isSparse:
+            # Members without header are files that are only compressed but not in an archive.
+            if not sqlConnection.execute("SELECT 1 FROM files LIMIT 1").fetchone():
+                raise InvalidIndexError("The index contains no files!")
             return None
+        offsetHeader = int(result[0]) // 512 * 512
 
-        # Round up to next TAR block
-        if pastEndOffset % 512 != 0:
-            pastEndOffset += 512 - (pastEndOffset % 512)
-
-        return pastEndOffset
+        # The size stored in the index is not sufficient because it is the expanded size for sparse files.
+        oldOffset = self.tarFileObject.tell()
+        try:
+            archiveSize = self.tarFileObject.seek(0, io.SEEK_END)
+            with StenciledFile(
+                fileStencils=[(self.tarFileObject, offsetHeader, archiveSize - offsetHeader)]
+            ) as file, tarfile.open(fileobj=file, mode='r:', encoding=self.index.encoding) as archive:
+                # Opening already reads the first member, after which offset points to the next one.
+                return offsetHeader + archive.offset
+        except (tarfile.TarError, OSError, ValueError, IndexError):
+            return None
+        finally:
+            self.tarFileObject.seek(oldOffset)
 
     def _try_to_mark_as_appended(self, storedStats: dict[str, Any], archiveStats: os.stat_result):
         """
-- 
2.43.0


From e4504d21b3705e4fe5c968ca88cbc85119cd2862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 038/125] fix: list empty folders below recursively mounted
 archives and in folders

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..c5a223e 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -310,7 +310,7 @@ class AutoMountLayer(MountSource):
         return fileInfo
 
     def _append_mount_points(self, path: str, files, onlyMode: bool):
-        if not files:
+        if files is None:
             return None
 
         if not isinstance(files, dict):
-- 
2.43.0


From 9d4964319a14a6b808f99c5ee449d3357efb0c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 039/125] fix: show the mount points of all recursively mounted
 archives with all their versions

---
 .../mountsource/compositing/automount.py      | 56 ++++++++++---------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index c5a223e..6f7c401 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -278,37 +278,39 @@ class AutoMountLayer(MountSource):
         # TODO: Add support for the .versions API in order to access the underlying TARs if stripRecursiveTarExtension
         #       is false? Then again, SQLiteIndexedTar is not able to do this either, so it might be inconsistent.
 
-        # It might be arguably that we could simply let the mount source handle returning file infos for the root
-        # directory but only we know the permissions of the parent folder and can apply them to the root directory.
         mountPoint, pathInMountPoint = self._find_mounted(path)
-        mountInfo = self.mounted[mountPoint]
-
-        originalFileVersions = 0
-        if mountPoint != '/' and pathInMountPoint == '/':
-            originalFileVersions = self.mounted['/'].mountSource.versions(path)
-
-        def normalize_file_version(version, versions):
-            return ((version - 1) % versions + 1) % versions if versions > 1 else version
-
+        if mountPoint == '/' or pathInMountPoint != '/':
+            # It might be arguably that we could simply let the mount source handle returning file infos for the root
+            # directory but only we know the permissions of the parent folder and can apply them to the root directory.
+            if pathInMountPoint == '/' and fileVersion == 0:
+                return self.mounted[mountPoint].rootFileInfo.clone()
+            return self._lookup_in(mountPoint, pathInMountPoint, fileVersion)
+
+        # The folder for the mounted archive is the most recent version. If the mount point is equal to the path of
+        # the archive, then the archive itself and its older versions come before that.
         # fileVersion=0 is the most recent. Version 1..fileVersions number from the first occurrence / oldest
         # version to the most recent, i.e., fileVersion = 0 is equivalent to fileVersion = fileVersions.
         fileVersions = self.versions(path)
-        fileVersion = normalize_file_version(fileVersion, fileVersions)
-        if fileVersion == 0 and pathInMountPoint == '/':
-            return mountInfo.rootFileInfo.clone()
-
-        if fileVersions <= 1 or pathInMountPoint != '/' or fileVersion == 0 or fileVersion > originalFileVersions:
-            fileInfo = mountInfo.mountSource.lookup(pathInMountPoint, fileVersion - originalFileVersions)
-            if fileInfo:
-                fileInfo.userdata.append(mountPoint)
-            return fileInfo
-
-        # We are here if: fileVersions > 1 and 0 < fileVersion <= originalFileVersions and pathInMountPoint == '/'
-        fileInfo = self.mounted['/'].mountSource.lookup(path, fileVersion % originalFileVersions)
+        if fileVersion in (0, fileVersions):
+            return self.mounted[mountPoint].rootFileInfo.clone()
+        if fileVersion < 0:
+            fileVersion += fileVersions
+        if fileVersion <= 0 or fileVersion > fileVersions:
+            return None
+        return self._lookup_in(*self._find_parent_mounted(mountPoint), fileVersion)
+
+    def _lookup_in(self, mountPoint: str, pathInMountPoint: str, fileVersion: int) -> Optional[FileInfo]:
+        fileInfo = self.mounted[mountPoint].mountSource.lookup(pathInMountPoint, fileVersion)
         if fileInfo:
-            fileInfo.userdata.append('/')
+            fileInfo.userdata.append(mountPoint)
         return fileInfo
 
+    def _find_parent_mounted(self, mountPoint: str) -> tuple[str, str]:
+        """Returns the mount point, into which the given one is mounted, and the path of the latter in the former."""
+        folder, name = os.path.split(mountPoint)
+        parentMountPoint, folderInMountPoint = self._simply_find_mounted(folder)
+        return parentMountPoint, os.path.join(folderInMountPoint, name)
+
     def _append_mount_points(self, path: str, files, onlyMode: bool):
         if files is None:
             return None
@@ -361,10 +363,10 @@ class AutoMountLayer(MountSource):
     @overrides(MountSource)
     def versions(self, path: str) -> int:
         mountPoint, pathInMountPoint = self._find_mounted(path)
-        fileVersions = self.mounted[mountPoint].mountSource.versions(pathInMountPoint)
         if mountPoint != '/' and pathInMountPoint == '/':
-            fileVersions += self.mounted['/'].mountSource.versions(path)
-        return fileVersions
+            parentMountPoint, pathInParentMountPoint = self._find_parent_mounted(mountPoint)
+            return self.mounted[parentMountPoint].mountSource.versions(pathInParentMountPoint) + 1
+        return self.mounted[mountPoint].mountSource.versions(pathInMountPoint)
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
-- 
2.43.0


From fa0fb663de32ce97357b908f50b8b59d5fe1eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 040/125] fix: close recursively mounted archives before the
 archives containing them

---
 core/ratarmountcore/mountsource/compositing/automount.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 6f7c401..ce03708 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -416,7 +416,9 @@ class AutoMountLayer(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountInfo in self.mounted.values():
+        # Close nested archives before those containing them because closing, e.g., rapidgzip objects still accesses
+        # the file object opened from the parent archive and the process is terminated if that fails.
+        for mountInfo in reversed(self.mounted.values()):
             mountInfo.mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-- 
2.43.0


From 8003a63e6732cf9a7c7f483cdbfa6154816c16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 041/125] fix: show files that only have the extension of a TAR
 in TARs as files instead of as empty folders

---
 core/ratarmountcore/mountsource/formats/tar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 7fc950d..a3996c2 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -913,6 +913,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             # This would also save some indirections to speed up accesses.
             tarFileObject = StenciledFile([(self.tarFileObject, globalOffset, size)])
 
+            # Leave anything that only has the extension as is. It might not be an archive at all or AutoMountLayer can
+            # still mount it, e.g., if it is compressed.
+            if not might_be_format(tarFileObject, FileFormatID.TAR):
+                continue
+
             isTar = False
             try:
                 # Do not use os.path.join here because the leading / might be missing.
-- 
2.43.0


From edbad7988470a13c7e7208935c259d8ab9ba7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 042/125] fix: do not raise when checking small files for raw
 deflate data

---
 core/ratarmountcore/formats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 67f1ac9..7a7d7db 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -305,10 +305,11 @@ def _check_deflate(fileobj: IO[bytes]) -> bool:
     if not callable(determineFileType):
         return False
 
-    if determineFileType(fileobj).lower() != 'deflate':
-        return False
-
     try:
+        # This raises an exception for some very small files.
+        if determineFileType(fileobj).lower() != 'deflate':
+            return False
+
         # determineFileType only checks the header, which is almost nothing for 'deflate'.
         # Therefore try to read a bit.
         with rapidgzip.RapidgzipFile(fileobj, parallelization=1, chunk_size=128 * 1024) as file:
-- 
2.43.0


From c9dc6579f895e9e6876c997cd69e920c9039402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 043/125] fix: let the last mount source win in unions of files
 and folders with the lookup cache

---
 core/ratarmountcore/mountsource/compositing/union.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..c97293a 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -106,12 +106,10 @@ class UnionMountSource(MountSource):
         if not path.strip('/'):
             return self.rootFileInfo.clone()
 
-        if path in self.folderCache:
-            # This case might be triggered when path is a folder
-            cachedMountSources = self.folderCache[path]
-        elif self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
-            # This should be the most common case, i.e., for regular files. Look up the parent folder in this case.
-            parentFolder = '/'.join(path.split('/', self.folderCacheDepth + 1)[:-1])
+        if self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
+            # Look up the parent folder even if path itself is a cached folder because there might also be files
+            # with that path in other mount sources.
+            parentFolder = '/'.join(('/' + path.strip('/')).split('/', self.folderCacheDepth + 1)[:-1])
             if not parentFolder:
                 parentFolder = '/'
             cachedMountSources = self.folderCache.get(parentFolder, [])
-- 
2.43.0


From c97b1bf3e0c071279af07fd301d949c63cb15bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 044/125] fix: show the metadata of the last mount source in
 listings of union mounts

---
 core/ratarmountcore/mountsource/compositing/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index c97293a..893cf24 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -161,7 +161,8 @@ class UnionMountSource(MountSource):
 
             elif isinstance(result, dict):
                 if isinstance(files, dict):
-                    files.update(result)
+                    # The mount sources are iterated in order of decreasing precedence.
+                    files = {**result, **files}  # type: ignore[dict-item]
                 else:
                     files = files.union(result.keys())
 
-- 
2.43.0


From 84863511cc5b8e0ac2980d0ad8caa0878441d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 045/125] fix: make nested subvolumes usable and close them

---
 .../mountsource/compositing/subvolumes.py     | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 7465677..ebe1a69 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -1,6 +1,6 @@
 import builtins
 import posixpath
-from collections.abc import Iterable
+from collections.abc import Iterable, Iterator
 from typing import IO, Any, Optional, Union
 
 from ratarmountcore.mountsource import FileInfo, MountSource, create_root_file_info
@@ -34,6 +34,21 @@ class SubvolumesMountSource(MountSource):
             folder = folder[part]
         return folder
 
+    def _get_mount_source_at(self, path: str) -> MountSource:
+        mountSource = self._get_by_path(path)
+        if not isinstance(mountSource, MountSource):
+            raise RatarmountError(f"Nothing is mounted at '{path}' anymore!")
+        return mountSource
+
+    def _iterate_mount_sources(self) -> Iterator[MountSource]:
+        folders = [self.mountSources]
+        while folders:
+            for target in folders.pop().values():
+                if isinstance(target, MountSource):
+                    yield target
+                else:
+                    folders.append(target)
+
     def is_mountable(self, path: str) -> bool:
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
@@ -176,7 +191,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].open(fileInfo, buffering=buffering)
+            return self._get_mount_source_at(subvolume).open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -186,7 +201,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].read(fileInfo, size, offset)
+            return self._get_mount_source_at(subvolume).read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -194,7 +209,7 @@ class SubvolumesMountSource(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return [] if subvolume is None else self.mountSources[subvolume].list_xattr(fileInfo)
+            return [] if subvolume is None else self._get_mount_source_at(subvolume).list_xattr(fileInfo)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -202,7 +217,7 @@ class SubvolumesMountSource(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return None if subvolume is None else self.mountSources[subvolume].get_xattr(fileInfo, key)
+            return None if subvolume is None else self._get_mount_source_at(subvolume).get_xattr(fileInfo, key)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -211,19 +226,19 @@ class SubvolumesMountSource(MountSource):
         sourceFileInfo = fileInfo.clone()
         subvolume = sourceFileInfo.userdata.pop()
 
-        if subvolume is None or subvolume not in self.mountSources:
+        if subvolume is None:
             return '/', self, fileInfo
-        mountSource = self.mountSources[subvolume]
+        mountSource = self._get_mount_source_at(subvolume)
 
         subpath, subMountSource, subFileInfo = mountSource.get_mount_source(sourceFileInfo)
         return posixpath.normpath(f"/{subvolume}/{subpath}"), subMountSource, subFileInfo
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountSource in self.mountSources.values():
+        for mountSource in self._iterate_mount_sources():
             mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-        for mountSource in self.mountSources:
+        for mountSource in self._iterate_mount_sources():
             if hasattr(mountSource, 'join_threads'):
                 mountSource.join_threads()
-- 
2.43.0


From 32af422283bd5ddec88b63597966b0d6550c6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 046/125] fix: do not create folders when checking whether a
 path can be mounted

---
 core/ratarmountcore/mountsource/compositing/subvolumes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index ebe1a69..adc9a23 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -53,10 +53,11 @@ class SubvolumesMountSource(MountSource):
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
         try:
-            folder = self._get_by_path(parent, create=True)
+            folder = self._get_by_path(parent)
         except RatarmountError:
             return False
-        return bool(name) and folder is not None and isinstance(folder, dict) and (name not in folder)
+        # Missing parent folders will be created by mount.
+        return bool(name) and (folder is None or (isinstance(folder, dict) and name not in folder))
 
     def mount(self, path: str, target: MountSource) -> bool:
         """Adds a mount source at the specified path. Must not overlap with existing mounts. Return true on success."""
-- 
2.43.0


From a8bc308077c654d5d6602245f28ee316bf6444cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 047/125] fix: only show existing versions of existing files

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index c42e17f..e0fd877 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -66,6 +66,8 @@ class FileVersionLayer(MountSource):
                     assert str(fileVersion) == part
                 except Exception:
                     return None
+                if not 1 <= fileVersion <= self.mountSource.versions(filePath):
+                    return None
                 pathIsSpecialVersionsFolder = False
                 continue
 
@@ -89,6 +91,10 @@ class FileVersionLayer(MountSource):
         if fileVersion is None:
             return None
 
+        # There is no special versions folder for files and folders that do not exist.
+        if pathIsSpecialVersionsFolder and not self.mountSource.lookup(filePath):
+            return None
+
         return filePath, pathIsSpecialVersionsFolder, (0 if pathIsSpecialVersionsFolder else fileVersion)
 
     @staticmethod
-- 
2.43.0


From ac85ab3a13974cd94d537752fad6fdafb1e7086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 048/125] fix: resolve hard links when looking up a specific
 version

---
 .../mountsource/compositing/versioning.py          | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index e0fd877..fe1bfe1 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -104,15 +104,16 @@ class FileVersionLayer(MountSource):
         return bool(not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode) and fileInfo.linkname)
 
     @staticmethod
-    def _resolve_hard_links(mountSource: MountSource, path: str) -> Optional[FileInfo]:
+    def _resolve_hard_links(mountSource: MountSource, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         """path : Simple path. Should contain no special versioning folders!"""
 
-        fileInfo = mountSource.lookup(path)
+        fileInfo = mountSource.lookup(path, fileVersion)
         if not fileInfo:
             return None
 
         resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
-        fileVersion = 0
+        # When a specific version was requested, then self-references can only refer to versions older than that one.
+        onlyOlderVersions = fileVersion > 0
         hardLinkCount = 0
 
         while resolvedPath and hardLinkCount < 128:  # For comparison, the maximum symbolic link chain in Linux is 40.
@@ -135,6 +136,11 @@ class FileVersionLayer(MountSource):
                 # version per path.
                 # TODO Is such a hardlink cycle even possible?!
                 fileVersion = 0
+                onlyOlderVersions = False
+            elif onlyOlderVersions:
+                fileVersion -= 1
+                if fileVersion < 1:
+                    return None
             else:
                 # If file is referencing itself, try to access earlier version of it.
                 # The check for fileVersion against the total number of available file versions is omitted because
@@ -236,7 +242,7 @@ class FileVersionLayer(MountSource):
             # fmt: on
 
         # 3.) At this point the request is for an actually older version of a file or folder
-        fileInfo = self.mountSource.lookup(path, fileVersion=fileVersion)
+        fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append(FileType.FILE)
         return fileInfo
-- 
2.43.0


From 877d8793b5777bd790d034cee6422df03f9e8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 049/125] fix: list files in folders with the same metadata as
 looking them up returns

---
 .../mountsource/formats/folder.py             | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..dfea704 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -81,14 +81,11 @@ class FolderMountSource(MountSource):
         )
         # fmt: on
 
-    @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
-        try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
-        except OSError:
-            linkname = ""
-
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+    def _dir_entry_to_file_info(self, dirEntry: os.DirEntry, path: str) -> FileInfo:
+        entryPath = (path.strip('/') + '/' + os.fsdecode(dirEntry.name)).lstrip('/')
+        # Some symbolic links are resolved.
+        fileInfo = self.lookup(entryPath) if dirEntry.is_symlink() else None
+        return fileInfo or self._stats_to_file_info(dirEntry.stat(follow_symlinks=False), entryPath, "")
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -134,7 +131,7 @@ class FolderMountSource(MountSource):
             return None
 
         return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
+            os.fsdecode(dirEntry.name): self._dir_entry_to_file_info(dirEntry, path)
             for dirEntry in os.scandir(realpath)
         }
 
@@ -153,7 +150,11 @@ class FolderMountSource(MountSource):
         def make_mode(dirEntry):
             mode = stat.S_IFDIR if dirEntry.is_dir(follow_symlinks=False) else stat.S_IFREG
             if dirEntry.is_symlink():
-                mode = stat.S_IFLNK
+                # Some symbolic links are resolved.
+                fileInfo = self.lookup(path.strip('/') + '/' + os.fsdecode(dirEntry.name))
+                mode = stat.S_IFMT(fileInfo.mode) if fileInfo else stat.S_IFLNK
+            elif mode == stat.S_IFREG and not dirEntry.is_file(follow_symlinks=False):
+                mode = stat.S_IFMT(dirEntry.stat(follow_symlinks=False).st_mode)
             return mode
 
         return {os.fsdecode(dirEntry.name): make_mode(dirEntry) for dirEntry in os.scandir(realpath)}
-- 
2.43.0


From 0c82be1eee39109cb5e29648f0b1376a2cf5604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 050/125] fix: do not show the extended attributes of the first
 file in implicitly added parent folders

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 34a5d88..5f94d51 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -716,7 +716,7 @@ class SQLiteIndex:
                 /* path name offsetheader offset size mtime mode type */
                 SELECT path,name,offsetheader,offset,0,0,{int(0o555 | stat.S_IFDIR)},{int(tarfile.DIRTYPE)},
                        /* linkname uid gid istar issparse isgenerated recursiondepth */
-                       '',0,0,0,0,0,0
+                       '',0,0,0,0,1,0
                 FROM "parentfolders"
                 WHERE {searchByTuple if _get_libsqlite_version() >= (3, 22, 0) else searchByConcat}
                     FROM "files" WHERE mode & (1 << 14) != 0
-- 
2.43.0


From 1b6c4959b6f033e4339d674aa32c3a59833fdf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 051/125] fix: resolve hard links in the archive containing
 them and self-references to the previous version

---
 .../mountsource/compositing/versioning.py     | 70 ++++++++-----------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index fe1bfe1..d02c722 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -111,55 +111,41 @@ class FileVersionLayer(MountSource):
         if not fileInfo:
             return None
 
-        resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
-        # When a specific version was requested, then self-references can only refer to versions older than that one.
-        onlyOlderVersions = fileVersion > 0
         hardLinkCount = 0
-
-        while resolvedPath and hardLinkCount < 128:  # For comparison, the maximum symbolic link chain in Linux is 40.
+        while FileVersionLayer._is_hard_link(fileInfo) and hardLinkCount < 128:
+            # For comparison, the maximum symbolic link chain in Linux is 40.
             # Link targets are relative to the mount source. That's why we need the mount point to get the full path
             # in respect to this mount source. And we must a file info object for this mount source, so we have to
             # get that using the full path instead of calling lookup on the deepest mount source.
-            mountPoint, _, _ = mountSource.get_mount_source(fileInfo)
-
-            resolvedPath = os.path.join(mountPoint, resolvedPath.lstrip('/'))
-
-            if resolvedPath != path:  # noqa: SIM108
-                # The file version is only of importance to resolve self-references.
-                # It seems undecidable to me whether to return the given fileVersion or 0 here.
-                # Returning 0 would feel more correct because the we switched to another file and the version
-                # for that file is the most recent one.
-                # However, resetting the file version to 0 means that if there is a cycle, i.e., two hardlinks
-                # of different names referencing each other, than the file version will always be reset to 0
-                # and we have no break condition, entering an infinite loop.
-                # The most correct version would be to track the version of each path in a map and count up the
-                # version per path.
-                # TODO Is such a hardlink cycle even possible?!
-                fileVersion = 0
-                onlyOlderVersions = False
-            elif onlyOlderVersions:
-                fileVersion -= 1
-                if fileVersion < 1:
-                    return None
-            else:
-                # If file is referencing itself, try to access earlier version of it.
-                # The check for fileVersion against the total number of available file versions is omitted because
-                # that check is done implicitly inside the mount sources lookup method!
-                fileVersion = fileVersion + 1 if fileVersion >= 0 else fileVersion - 1
+            mountPoint, linkMountSource, _ = mountSource.get_mount_source(fileInfo)
+            resolvedPath = os.path.join(mountPoint, fileInfo.linkname.lstrip('/'))
 
+            newestVersion = mountSource.versions(resolvedPath)
+            if resolvedPath == path:
+                # If file is referencing itself, try to access earlier version of it.
+                newestVersion = (fileVersion if fileVersion > 0 else newestVersion) - 1
             path = resolvedPath
-            fileInfo = mountSource.lookup(path, fileVersion)
-            if fileInfo and stat.S_ISDIR(fileInfo.mode):
-                # Hard links cannot point to folders. This is an archive that has been mounted at the path of the file.
-                for version in range(mountSource.versions(path), 0, -1):
-                    olderFileInfo = mountSource.lookup(path, version)
-                    if olderFileInfo and not stat.S_ISDIR(olderFileInfo.mode):
-                        fileInfo = olderFileInfo
-                        break
-            if not fileInfo:
-                return None
 
-            resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
+            # The preferred target is the most recent file in the same mount source as the hard link.
+            # It might be in another mount source, e.g., for union mounts of incremental archives.
+            # Hard links cannot point to folders. Those are archives that have been mounted at the path of the file.
+            target: Optional[FileInfo] = None
+            targetRank = 0
+            for version in range(newestVersion, 0, -1):
+                candidate = mountSource.lookup(path, version)
+                if not candidate:
+                    continue
+                rank = 1
+                if not stat.S_ISDIR(candidate.mode):
+                    rank = 3 if mountSource.get_mount_source(candidate)[1] is linkMountSource else 2
+                if rank > targetRank:
+                    target, targetRank, fileVersion = candidate, rank, version
+                if rank == 3:
+                    break
+
+            if not target:
+                return None
+            fileInfo = target
             hardLinkCount += 1
 
         return fileInfo
-- 
2.43.0


From 73f8253639e168d4a47853f748a498886889e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 052/125] fix: only return the one existing version in mount
 sources without versioning

---
 .../ratarmountcore/mountsource/compositing/removeprefix.py | 7 ++++++-
 core/ratarmountcore/mountsource/compositing/singlefile.py  | 4 ++++
 core/ratarmountcore/mountsource/formats/ext4.py            | 6 +++++-
 core/ratarmountcore/mountsource/formats/fat.py             | 6 +++++-
 core/ratarmountcore/mountsource/formats/fsspec.py          | 6 +++++-
 core/ratarmountcore/mountsource/formats/git.py             | 6 +++++-
 core/ratarmountcore/mountsource/formats/sqlar.py           | 4 ++++
 7 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index 53a7978..ed0a820 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -44,7 +44,12 @@ class RemovePrefixMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
-        return self._parse_path(path, self.mountSource.lookup, lambda _: self._directory_info.clone(), None)
+        return self._parse_path(
+            path,
+            lambda subpath: self.mountSource.lookup(subpath, fileVersion),
+            lambda _: self._directory_info.clone() if fileVersion in [0, 1] else None,
+            None,
+        )
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
diff --git a/core/ratarmountcore/mountsource/compositing/singlefile.py b/core/ratarmountcore/mountsource/compositing/singlefile.py
index d65ce36..3da1548 100644
--- a/core/ratarmountcore/mountsource/compositing/singlefile.py
+++ b/core/ratarmountcore/mountsource/compositing/singlefile.py
@@ -138,6 +138,10 @@ class SingleFileMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version of each file.
+        if fileVersion not in [0, 1]:
+            return None
+
         if not path or path == '/':
             return self._create_file_info(size=0, isdir=True)
         if path.strip('/') == self.path:
diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 01c6e80..2ec9829 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -166,6 +166,10 @@ class EXT4MountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version of each file.
+        if fileVersion not in [0, 1]:
+            return None
+
         try:
             with self.lock:
                 return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
@@ -175,7 +179,7 @@ class EXT4MountSource(MountSource):
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.exists(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/fat.py b/core/ratarmountcore/mountsource/formats/fat.py
index f67376b..127f599 100644
--- a/core/ratarmountcore/mountsource/formats/fat.py
+++ b/core/ratarmountcore/mountsource/formats/fat.py
@@ -109,6 +109,10 @@ class FATMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version of each file.
+        if fileVersion not in [0, 1]:
+            return None
+
         try:
             entry = self.fileSystem.root_dir.get_entry(path)
         except PyFATException as exception:
@@ -119,7 +123,7 @@ class FATMountSource(MountSource):
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.exists(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/fsspec.py b/core/ratarmountcore/mountsource/formats/fsspec.py
index 1cb7eb2..2012ee5 100644
--- a/core/ratarmountcore/mountsource/formats/fsspec.py
+++ b/core/ratarmountcore/mountsource/formats/fsspec.py
@@ -271,6 +271,10 @@ class FSSpecMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version of each file.
+        if fileVersion not in [0, 1]:
+            return None
+
         if isinstance(self.fileSystem, fsspec.implementations.http.HTTPFileSystem):
             return self._lookup_http(path)
 
@@ -307,7 +311,7 @@ class FSSpecMountSource(MountSource):
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.lookup(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index ea5e45a..8ad94e9 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -109,12 +109,16 @@ class GitMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version of each file.
+        if fileVersion not in [0, 1]:
+            return None
+
         obj = self._look_up_path(path)
         return None if obj is None else self._convert_to_file_info(obj, path)
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.exists(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 2acd9de..d2bcf79 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -340,6 +340,10 @@ class SQLARMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version of each file.
+        if fileVersion not in [0, 1]:
+            return None
+
         if path == "/":
             return create_root_file_info([-1])
 
-- 
2.43.0


From 62bffd80bc80d4c7530c53d34c5d1eb7d2c82967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 053/125] fix: paths below files do not exist in FAT images

---
 core/ratarmountcore/mountsource/formats/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/fat.py b/core/ratarmountcore/mountsource/formats/fat.py
index 127f599..918f12c 100644
--- a/core/ratarmountcore/mountsource/formats/fat.py
+++ b/core/ratarmountcore/mountsource/formats/fat.py
@@ -88,7 +88,7 @@ class FATMountSource(MountSource):
         try:
             self.fileSystem.root_dir.get_entry(path)
         except PyFATException as exception:
-            if exception.errno == errno.ENOENT:
+            if exception.errno in [errno.ENOENT, errno.ENOTDIR]:
                 return False
             raise exception
         return True
-- 
2.43.0


From 6143e424025f249d7cd00ddc263dbce44047784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 054/125] fix: do not create files named :memory: when mounting
 through the control interface

---
 ratarmount/FuseMount.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..4974507 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -427,7 +427,9 @@ class FuseMount(fuse.Operations):
     def _filter_index_locations_in_fuse_mount(self, options: dict) -> None:
         hasIndexPath = False
 
-        if 'indexFilePath' in options and isinstance(options['indexFilePath'], str):
+        if options.get('indexFilePath', None) == ':memory:':
+            hasIndexPath = True
+        elif 'indexFilePath' in options and isinstance(options['indexFilePath'], str):
             indexFilePath = options['indexFilePath']
             # Strip a single file://, not any more because URL chaining is supported by fsspec.
             if options['indexFilePath'].count('://') == 1:
-- 
2.43.0


From 128fe8bb135ab3c72ad1c236379d7253bc399dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 055/125] fix: make the control interface usable together with
 disabled union mounting

---
 ratarmount/FuseMount.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 4974507..3ba2638 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -223,6 +223,7 @@ class FuseMount(fuse.Operations):
 
             openLog = _get_log
 
+        controlLayer: Optional[MountSource] = None
         if self._enableControlInterface:
             controlFiles = [
                 SingleFileMountSource('command', (lambda _: cast(IO[bytes], CommandFile(self._parse_command))))
@@ -235,7 +236,6 @@ class FuseMount(fuse.Operations):
                 self._subvolumes = SubvolumesMountSource({})
                 mountSources.append(('/', self._subvolumes))
             controlLayer = RemovePrefixMountSource(self._controlLayerPrefix, UnionMountSource(controlFiles))
-            mountSources.append(('/', controlLayer))
 
         if not mountSources:
             raise ValueError("Mount point is empty! Either specify some input files or enable the control interface!")
@@ -245,6 +245,9 @@ class FuseMount(fuse.Operations):
         )
         if isinstance(self.mountSource, SubvolumesMountSource):
             self._subvolumes = self.mountSource
+        if controlLayer:
+            # The control layer belongs into the root folder even when the inputs are mounted as subvolumes.
+            self.mountSource = UnionMountSource([self.mountSource, controlLayer], **options)
 
         if determine_recursion_depth(**options) > 0:
             self.mountSource = AutoMountLayer(self.mountSource, **options)
-- 
2.43.0


From aa98af85b7290d9f126c2591fb181f68bfb30941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 056/125] fix: use the names of folders specified with trailing
 slashes when not using union mounting

---
 ratarmount/FuseMount.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 3ba2638..4a57435 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -181,7 +181,7 @@ class FuseMount(fuse.Operations):
         for path in pathToMount:
             if os.path.realpath(path) != self.mountPoint:
                 # This also will create or load the block offsets for compressed formats.
-                mountSources.append((os.path.basename(path), open_mount_source(path, **options)))
+                mountSources.append((self._get_mount_name(path), open_mount_source(path, **options)))
                 continue
 
             if self.mountPointFd is not None:
@@ -189,7 +189,7 @@ class FuseMount(fuse.Operations):
 
             # Create either FolderMountSource or IndexedFolderMountSource.
             mountSource = open_mount_source(path, **options)
-            mountSources.append((os.path.basename(path), mountSource))
+            mountSources.append((self._get_mount_name(path), mountSource))
             self.selfBindMount = mountSource
             self.mountPointFd = os.open(self.mountPoint, os.O_RDONLY)
 
@@ -463,6 +463,12 @@ class FuseMount(fuse.Operations):
         if not hasIndexPath:
             options['indexFilePath'] = ':memory:'
 
+    @staticmethod
+    def _get_mount_name(path: str) -> str:
+        # Folders may be specified with trailing slashes or, e.g., as '.', for which the base name would be empty or '.'.
+        path = os.fspath(path)
+        return os.path.basename(path.rstrip('/') if '://' in path else os.path.abspath(path))
+
     @staticmethod
     def _create_multi_mount(mountSources: list[tuple[str, MountSource]], options: dict) -> MountSource:
         if not options.get('disableUnionMount', False):
@@ -519,7 +525,7 @@ class FuseMount(fuse.Operations):
 
         # We have checked at the start of this method that none of args.mount_source points into our FUSE mount!
         mountSources: list[tuple[str, MountSource]] = [
-            (os.path.basename(path), open_mount_source(path, **options)) for path in args.mount_source
+            (self._get_mount_name(path), open_mount_source(path, **options)) for path in args.mount_source
         ]
         mountSource: MountSource = (
             mountSources[0][1] if len(mountSources) == 1 else self._create_multi_mount(mountSources, options)
-- 
2.43.0


From 4f158b5a72f29f77e2d6dcfb0ebf4e0df214a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 057/125] fix: mount at the correct subfolder when given an
 absolute path into our own mount point

---
 ratarmount/FuseMount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 4a57435..6647df3 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -610,7 +610,8 @@ class FuseMount(fuse.Operations):
                 return None
 
             # subpath is not None and not empty, i.e., we mount into ourselves!
-            args.mount_point = args.mount_source.pop()
+            args.mount_source.pop()
+            args.mount_point = subpath
         else:
             try:
                 self._lookup(lastArgument)
-- 
2.43.0


From 008e64a2a804b3bd066c2a37f281ea16a5ba8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 058/125] fix: hand unmounting of other mount points to another
 process in the control interface

---
 ratarmount/FuseMount.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 6647df3..d3c277b 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -628,8 +628,9 @@ class FuseMount(fuse.Operations):
             # We need to parse the arguments to test for relative paths or absolute paths pointing into our mount point.
             # This already processes direct actions such as --help without us having to start a subprocess.
             parsed = create_parser().parse_args(args)
-            if self._process_parsed_arguments(parsed):
-                return
+            remainingArgs = self._process_parsed_arguments(parsed)
+            if remainingArgs:
+                args = remainingArgs
 
             if len(self._subprocesses) > 100:
                 # Filter finished processes.
-- 
2.43.0


From cb2c2698bc4dd6b7a9542858921e4b675318af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 059/125] fix: keep the contents when truncating files that are
 already in the write overlay

---
 ratarmount/WriteOverlay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..f97c8b6 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -445,7 +445,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def truncate(self, path: str, length: int, fh=None):
-        self._ensure_file_is_modifiable(path)
+        # Files already in the overlay must not be copied again. They might even get copied onto themselves!
+        if not os.path.exists(self._realpath(path)):
+            self._ensure_file_is_modifiable(path)
         os.truncate(self._realpath(path), length)
 
     # Actual writing
-- 
2.43.0


From e81fa51f9c1b00e8ff906b39360bd64720c6d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 060/125] fix: keep the metadata of files and folders when
 copying them into the write overlay

---
 ratarmount/WriteOverlay.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index f97c8b6..a5543e9 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -158,10 +158,28 @@ class WritableFolderMountSource(fuse.Operations):
         """
         parentPath = self._split_path(path)[0]
         if not os.path.exists(self._realpath(parentPath)) and self.mountSource.is_dir(parentPath):
+            folder = ''
+            for name in parentPath.strip('/').split('/'):
+                folder += '/' + name
+                if not os.path.exists(self._realpath(folder)):
+                    self._keep_metadata(folder)
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
+    def _keep_metadata(self, path: str):
+        """
+        Stores the current metadata in the database if it is not already there. Necessary before copying files and
+        folders into the overlay because the copies will have the metadata of newly created files and folders.
+        """
+        folder, name = self._split_path(path)
+        existsInMetadata = self.sqlConnection.execute(
+            'SELECT COUNT(*) > 0 FROM "files" WHERE "path" == (?) AND "name" == (?)', (folder, name)
+        ).fetchone()[0]
+        if not existsInMetadata:
+            self._init_file_metadata(path)
+
     def _ensure_file_is_modifiable(self, path):
         self._ensure_parent_exists(path)
+        self._keep_metadata(path)
         with (
             self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
             open(self._realpath(path), 'wb') as targetObject,
@@ -247,14 +265,7 @@ class WritableFolderMountSource(fuse.Operations):
         )
 
     def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
-        folder, name = self._split_path(path)
-
-        existsInMetadata = self.sqlConnection.execute(
-            'SELECT COUNT(*) > 0 FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name)
-        ).fetchone()[0]
-
-        if not existsInMetadata:
-            self._init_file_metadata(path)
+        self._keep_metadata(path)
         self._set_metadata(path, metadata)
 
         # Apply the metadata change for the file in the overlay folder if it exists there.
-- 
2.43.0


From f9f2c46a7eb3e10ce44943159cd1e232dcaf3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 061/125] fix: update the modification time when writing to
 files in the write overlay

---
 ratarmount/WriteOverlay.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index a5543e9..fdd8cbc 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -226,6 +226,13 @@ class WritableFolderMountSource(fuse.Operations):
         )
         return bool(result.fetchone()[0])
 
+    def _reset_mtime(self, path: str):
+        """Shows the modification time of the file in the overlay instead of any formerly stored one."""
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'UPDATE "files" SET mtime=NULL WHERE "path" == (?) AND "name" == (?) AND mtime IS NOT NULL', (folder, name)
+        )
+
     def _set_metadata(self, path: str, metadata: dict[str, Any]):
         if not metadata:
             raise ValueError("Need arguments to know what to update.")
@@ -460,6 +467,7 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.exists(self._realpath(path)):
             self._ensure_file_is_modifiable(path)
         os.truncate(self._realpath(path), length)
+        self._reset_mtime(path)
 
     # Actual writing
 
@@ -467,7 +475,9 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('path')
     def write(self, path: str, data, offset: int, fh):
         os.lseek(fh, offset, 0)
-        return os.write(fh, data)
+        result = os.write(fh, data)
+        self._reset_mtime(path)
+        return result
 
     # Flushing
 
-- 
2.43.0


From ff925c5ff109110b3ed5da325c081e866597e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 062/125] fix: show everything newly created in the write
 overlay with its own metadata even where something was deleted

---
 ratarmount/WriteOverlay.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index fdd8cbc..d2c02aa 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -186,16 +186,11 @@ class WritableFolderMountSource(fuse.Operations):
         ):
             shutil.copyfileobj(sourceObject, targetObject)
 
-    def _open(self, path: str, mode):
-        self._ensure_parent_exists(path)
+    def _mark_as_created(self, path: str, mode: Optional[int] = None):
+        """Shows the newly created path and forgets metadata of anything deleted that had this path."""
         folder, name = self._split_path(path)
-
-        self.sqlConnection.execute(
-            'INSERT OR IGNORE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
-        )
         self.sqlConnection.execute(
-            'UPDATE "files" SET deleted=0 WHERE path == (?) AND name == (?)',
-            (folder, name),
+            'INSERT OR REPLACE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
         )
 
     def _mark_as_deleted(self, path: str):
@@ -367,7 +362,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._ensure_parent_exists(target)
         os.symlink(source, self._realpath(target))
+        self._mark_as_created(target)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -377,17 +374,26 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
+        self._ensure_parent_exists(target)
+        os.link(overlaySource, self._realpath(target), follow_symlinks=False)
 
-        os.link(overlaySource, target)
+        # Hard links share all of their metadata.
+        folder, name = self._split_path(target)
+        self.sqlConnection.execute(
+            """INSERT OR REPLACE INTO "files" (path,name,mtime,mode,uid,gid,deleted)
+               SELECT ?,?,mtime,mode,uid,gid,0 FROM (SELECT 1)
+               LEFT JOIN "files" ON "path" == (?) AND "name" == (?);""",
+            (folder, name, *self._split_path(source)),
+        )
 
     # Folders
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mkdir(self, path: str, mode: int):
-        self._open(path, mode | stat.S_IFDIR)
+        self._ensure_parent_exists(path)
         os.mkdir(self._realpath(path), mode)
+        self._mark_as_created(path, mode | stat.S_IFDIR)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -429,11 +435,13 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def create(self, path: str, mode: int, fi=None):
-        self._open(path, mode)
+        self._ensure_parent_exists(path)
         # TODO Use the correct flags according after fixing argument forwarding in mfusepy.
         #      https://github.com/mxmlnkn/ratarmount/issues/172#issuecomment-3312526348
         # I see no downside to always adding read-mode by default, until then.
-        return os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        fileDescriptor = os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        self._mark_as_created(path, mode)
+        return fileDescriptor
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -459,6 +467,7 @@ class WritableFolderMountSource(fuse.Operations):
     def mknod(self, path: str, mode: int, dev: int):
         self._ensure_parent_exists(path)
         os.mknod(self._realpath(path), mode, dev)
+        self._mark_as_created(path, mode)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From a7ee845de3fd3e4dee2e66b7de7ff09dfe09d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 063/125] fix: do not hide files and folders that could not be
 deleted

---
 ratarmount/WriteOverlay.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index d2c02aa..5b63e82 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -413,8 +413,7 @@ class WritableFolderMountSource(fuse.Operations):
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._mark_as_deleted(path)
 
     # Files
 
@@ -459,8 +458,7 @@ class WritableFolderMountSource(fuse.Operations):
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._mark_as_deleted(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 66662f6d721453e8e25179bace4be44a0249a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 064/125] fix: change the times of symbolic links in the write
 overlay instead of their targets

---
 ratarmount/WriteOverlay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 5b63e82..3d7c599 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -331,7 +331,7 @@ class WritableFolderMountSource(fuse.Operations):
         mtime = time.time() if times is None else times[1] / 1e9
         ns = (int(mtime * 1e9), int(mtime * 1e9)) if times is None else times
 
-        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
+        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
     def rename(self, old: str, new: str):
-- 
2.43.0


From fd0c5883eb82af644eec928e20eecf1a312b5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 065/125] fix: rename folders, symbolic links, and files that
 also exist in the archive correctly with a write overlay

---
 ratarmount/WriteOverlay.py | 86 ++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 18 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 3d7c599..c0660aa 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -214,6 +214,13 @@ class WritableFolderMountSource(fuse.Operations):
         suffixes = ['', '-journal', '-shm', '-wal']
         return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in suffixes]
 
+    def _list_visible(self, path: str) -> set[str]:
+        contents = self.mountSource.list_mode(path)
+        if contents is None:
+            return set()
+        keys = contents.keys() if isinstance(contents, Mapping) else contents
+        return set(keys) - set(self.list_deleted(path))
+
     def is_deleted(self, path: str) -> bool:
         folder, name = self._split_path(path)
         result = self.sqlConnection.execute(
@@ -334,28 +341,74 @@ class WritableFolderMountSource(fuse.Operations):
         self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
+    @check_ignored_prefixes('old')
     def rename(self, old: str, new: str):
+        if any(new.startswith(prefix) for prefix in self.ignoredPrefixes):
+            raise FileNotFoundError(f"Accessing forbidden folder: {new}")
+
         if not self.mountSource.exists(old) or self.is_deleted(old):
             raise fuse.FuseOSError(errno.ENOENT)
 
-        folder, name = self._split_path(new)
+        fileInfo = self.mountSource.lookup(old)
+        if fileInfo is None:
+            raise fuse.FuseOSError(errno.ENOENT)
 
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
+        realOld = self._realpath(old)
+        realNew = self._realpath(new)
+        isInOverlay = os.path.lexists(realOld)
+        isFolder = stat.S_ISDIR(fileInfo.mode)
+
+        # As specified by POSIX, nothing is to be done when both are links to the same file.
+        if old == new or (
+            isInOverlay and os.path.lexists(realNew) and os.path.samestat(os.lstat(realOld), os.lstat(realNew))
+        ):
+            return
+
+        if isFolder:
+            # Everything in the folder would have to be copied and marked as deleted if it is not only in the overlay.
+            # EXDEV is also returned by overlayfs in this case and makes callers such as 'mv' copy all the contents.
+            if not isInOverlay or self.mountSource.versions(old) > 1:
+                raise fuse.FuseOSError(errno.EXDEV)
+            if self._list_visible(new):
+                raise fuse.FuseOSError(errno.ENOTEMPTY)
+        elif not isInOverlay and not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode):
+            raise fuse.FuseOSError(errno.EXDEV)
 
         self._ensure_parent_exists(new)
-        if os.path.lexists(self._realpath(old)):
-            os.rename(self._realpath(old), self._realpath(new))
+        self._keep_metadata(old)
+        if isInOverlay:
+            os.rename(realOld, realNew)
         else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
-
-            with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                shutil.copyfileobj(sourceObject, targetObject)
+            if os.path.lexists(realNew):
+                os.unlink(realNew)
+            if stat.S_ISLNK(fileInfo.mode):
+                os.symlink(fileInfo.linkname, realNew)
+            else:
+                with self.mountSource.open(fileInfo) as sourceObject, open(realNew, 'wb') as targetObject:
+                    shutil.copyfileobj(sourceObject, targetObject)
+
+        self._move_metadata(old, new)
+        if isFolder:
+            for dirpath, dirnames, filenames in os.walk(realNew):
+                subpath = os.path.relpath(dirpath, realNew)
+                for child in dirnames + filenames:
+                    self._move_metadata(
+                        os.path.normpath(os.path.join(old, subpath, child)),
+                        os.path.normpath(os.path.join(new, subpath, child)),
+                    )
+            # Only paths marked as deleted remain. They cannot be anything in the mount source as checked above.
+            self.sqlConnection.execute(
+                'DELETE FROM "files" WHERE "path" == (?) OR substr("path", 1, ?) == (?)', (old, len(old) + 1, old + '/')
+            )
+        self._mark_as_deleted(old)
 
-            self._mark_as_deleted(old)
+    def _move_metadata(self, old: str, new: str):
+        """Makes the metadata belong to another path and forgets everything that was stored for that path."""
+        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) AND "name" == (?)', self._split_path(new))
+        self.sqlConnection.execute(
+            'UPDATE "files" SET "path" = (?), "name" = (?) WHERE "path" == (?) AND "name" == (?)',
+            (*self._split_path(new), *self._split_path(old)),
+        )
 
     # Links
 
@@ -401,11 +454,8 @@ class WritableFolderMountSource(fuse.Operations):
         if not self.mountSource.exists(path) or self.is_deleted(path):
             raise fuse.FuseOSError(errno.ENOENT)
 
-        contents = self.mountSource.list_mode(path)
-        if contents is not None:
-            keys = contents.keys() if isinstance(contents, Mapping) else contents
-            if set(keys) - set(self.list_deleted(path)):
-                raise fuse.FuseOSError(errno.ENOTEMPTY)
+        if self._list_visible(path):
+            raise fuse.FuseOSError(errno.ENOTEMPTY)
 
         try:
             if os.path.exists(self._realpath(path)):
-- 
2.43.0


From e4728622d0d4782809abbb63864ea4b0f22eee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 066/125] fix: update the modification times of folders when
 changing them with a write overlay

---
 ratarmount/WriteOverlay.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c0660aa..5bd73a0 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -192,6 +192,7 @@ class WritableFolderMountSource(fuse.Operations):
         self.sqlConnection.execute(
             'INSERT OR REPLACE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
         )
+        self._touch_parent(path)
 
     def _mark_as_deleted(self, path: str):
         """Hides the given path if it exists in the underlying mount source."""
@@ -235,6 +236,17 @@ class WritableFolderMountSource(fuse.Operations):
             'UPDATE "files" SET mtime=NULL WHERE "path" == (?) AND "name" == (?) AND mtime IS NOT NULL', (folder, name)
         )
 
+    def _touch_parent(self, path: str):
+        """To be called after adding something to a folder or removing it."""
+        parentPath = self._split_path(path)[0]
+        if not parentPath:
+            return
+        if os.path.isdir(self._realpath(parentPath)):
+            os.utime(self._realpath(parentPath))
+            self._reset_mtime(parentPath)
+        else:
+            self._set_file_metadata(parentPath, lambda p: None, {'mtime': time.time()})
+
     def _set_metadata(self, path: str, metadata: dict[str, Any]):
         if not metadata:
             raise ValueError("Need arguments to know what to update.")
@@ -401,6 +413,8 @@ class WritableFolderMountSource(fuse.Operations):
                 'DELETE FROM "files" WHERE "path" == (?) OR substr("path", 1, ?) == (?)', (old, len(old) + 1, old + '/')
             )
         self._mark_as_deleted(old)
+        self._touch_parent(old)
+        self._touch_parent(new)
 
     def _move_metadata(self, old: str, new: str):
         """Makes the metadata belong to another path and forgets everything that was stored for that path."""
@@ -438,6 +452,7 @@ class WritableFolderMountSource(fuse.Operations):
                LEFT JOIN "files" ON "path" == (?) AND "name" == (?);""",
             (folder, name, *self._split_path(source)),
         )
+        self._touch_parent(target)
 
     # Folders
 
@@ -464,6 +479,7 @@ class WritableFolderMountSource(fuse.Operations):
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
         self._mark_as_deleted(path)
+        self._touch_parent(path)
 
     # Files
 
@@ -509,6 +525,7 @@ class WritableFolderMountSource(fuse.Operations):
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
         self._mark_as_deleted(path)
+        self._touch_parent(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 64804b7a8ca90bee61ebf25bcf0087287656e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 067/125] fix: show changed metadata for the correct path in
 recursively mounted archives

---
 ratarmount/FuseMount.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index d3c277b..a543171 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -678,13 +678,11 @@ class FuseMount(fuse.Operations):
             return fileInfo
 
         # Request exact metadata from write overlay, e.g., if the actual file in the folder
-        # does not support permission changes
-        result = self.mountSource.get_mount_source(fileInfo)
-        subMountPoint = result[0]
+        # does not support permission changes. It is stored for the full path, even for recursively mounted archives.
         # TODO Note that if the path contains special .version versioning, then it will most likely fail
         #      to find the path in the write overlay, which is problematic for things like foo.versions/0.
         #      Would be really helpful if the file info would contain the actual path and name, too :/
-        return self.writeOverlay.update_file_info(path[len(subMountPoint) :], fileInfo)
+        return self.writeOverlay.update_file_info(path, fileInfo)
 
     @staticmethod
     def _redirect_output(name: str, file: IO[str]):
-- 
2.43.0


From 117a3f545eee2fd7e9b1972cda047fcfe5198f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 068/125] fix: return the free space of the write overlay in
 statfs

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index a543171..5f4a829 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -912,8 +912,8 @@ class FuseMount(fuse.Operations):
             keys = ['f_bsize', 'f_frsize']
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
-
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
-- 
2.43.0


From 287dd441e41bc8d23cf1d694f79c54d462116f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 069/125] fix: do not look up an empty path for the parent of
 folders in the root folder

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 5f4a829..df2b57c 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -763,7 +763,7 @@ class FuseMount(fuse.Operations):
             if path == '/':
                 yield '..', self.mountPointInfo['st_mode'], 0
             else:
-                yield '..', self.getattr(path.rsplit('/', 1)[0])['st_mode'], 0
+                yield '..', self.getattr(path.rsplit('/', 1)[0] or '/')['st_mode'], 0
         else:
             yield '.'
             yield '..'
-- 
2.43.0


From 11b38cfeca7d66d69d815f1069d823decb7ccb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 070/125] fix: do not keep released file handles

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index df2b57c..a80dc26 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -811,7 +811,7 @@ class FuseMount(fuse.Operations):
             os.close(openedFile)
         else:
             openedFile.close()
-            del openedFile
+        del self.openedFiles[fh]
 
         return fh
 
-- 
2.43.0


From c305d01c8eabee04a6f2899772de6a82a481fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 071/125] fix: truncate files opened for that even when nothing
 is written to them afterwards

---
 ratarmount/FuseMount.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index a80dc26..eae13ae 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -789,6 +789,16 @@ class FuseMount(fuse.Operations):
 
         fileInfo = self._lookup(path)
 
+        # With libFUSE 3, truncate is not called separately and maybe nothing will be written afterwards.
+        if (
+            self.writeOverlay
+            and flags & os.O_TRUNC
+            and flags & (os.O_WRONLY | os.O_RDWR)
+            and not (self._enableControlInterface and path.startswith(self._controlLayerPrefix))
+        ):
+            self.writeOverlay.truncate(path, 0)
+            return self._add_new_handle(self.writeOverlay.open(path, flags), flags)
+
         try:
             # If the flags indicate "open for modification", then still open it as read-only through the mount source
             # but store information to reopen it for write access on write calls.
-- 
2.43.0


From a5c6392d16690a26436a816dd8acbb926a37ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 072/125] fix: neither show nor allow to change the metadata
 database of the write overlay, and only hide it in the root folder

---
 ratarmount/WriteOverlay.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 5bd73a0..ba38642 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -25,9 +25,6 @@ def check_ignored_prefixes(parameter_name: str = 'path'):
     def decorator(func):
         @functools.wraps(func)
         def wrapper(self, *args, **kwargs):
-            if not self.ignoredPrefixes:
-                return func(self, *args, **kwargs)
-
             if parameter_name in kwargs:
                 path = kwargs[parameter_name]
             elif args:
@@ -39,6 +36,8 @@ def check_ignored_prefixes(parameter_name: str = 'path'):
             # Check if path starts with any ignored prefix.
             if any(path.startswith(prefix) for prefix in self.ignoredPrefixes):
                 raise FileNotFoundError(f"Accessing forbidden folder: {path}")
+            if self.is_hidden(path):
+                raise fuse.FuseOSError(errno.EPERM)
 
             return func(self, *args, **kwargs)
 
@@ -67,6 +66,13 @@ class WritableFolderMountSource(fuse.Operations):
     """
 
     hiddenDatabaseName = '.ratarmount.overlay.sqlite'
+    # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
+    hiddenNames = (
+        hiddenDatabaseName,
+        hiddenDatabaseName + '-journal',
+        hiddenDatabaseName + '-shm',
+        hiddenDatabaseName + '-wal',
+    )
 
     def __init__(self, path: str, mountSource: MountSource, ignoredPrefixes: Optional[list[str]] = None) -> None:
         if os.path.lexists(path):
@@ -211,9 +217,7 @@ class WritableFolderMountSource(fuse.Operations):
             'SELECT name FROM "files" WHERE path == (?) AND deleted == 1', (path.rstrip('/'),)
         )
 
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in suffixes]
+        return [x[0] for x in result] + (list(self.hiddenNames) if path == '/' else [])
 
     def _list_visible(self, path: str) -> set[str]:
         contents = self.mountSource.list_mode(path)
@@ -222,7 +226,14 @@ class WritableFolderMountSource(fuse.Operations):
         keys = contents.keys() if isinstance(contents, Mapping) else contents
         return set(keys) - set(self.list_deleted(path))
 
+    def is_hidden(self, path: str) -> bool:
+        """Whether the path is the metadata database, which only is in the root folder."""
+        folder, name = self._split_path(path)
+        return not folder and name in self.hiddenNames
+
     def is_deleted(self, path: str) -> bool:
+        if self.is_hidden(path):
+            return True
         folder, name = self._split_path(path)
         result = self.sqlConnection.execute(
             'SELECT COUNT(*) > 0 FROM "files" WHERE path == (?) AND name == (?) AND deleted == 1', (folder, name)
@@ -357,6 +368,8 @@ class WritableFolderMountSource(fuse.Operations):
     def rename(self, old: str, new: str):
         if any(new.startswith(prefix) for prefix in self.ignoredPrefixes):
             raise FileNotFoundError(f"Accessing forbidden folder: {new}")
+        if self.is_hidden(new):
+            raise fuse.FuseOSError(errno.EPERM)
 
         if not self.mountSource.exists(old) or self.is_deleted(old):
             raise fuse.FuseOSError(errno.ENOENT)
-- 
2.43.0


From 79bacf7e47fd05021822c91447418fea55f8f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 073/125] fix: do not freeze the modification time of hard
 links in the write overlay

---
 ratarmount/WriteOverlay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index ba38642..db131b1 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -455,6 +455,10 @@ class WritableFolderMountSource(fuse.Operations):
             raise fuse.FuseOSError(errno.EXDEV)
 
         self._ensure_parent_exists(target)
+        # The modification time must also change for all other links when writing to one of them.
+        mtime = self.update_file_info(source, self.mountSource.lookup(source)).mtime
+        os.utime(overlaySource, ns=(int(mtime * 1e9), int(mtime * 1e9)), follow_symlinks=False)
+        self._reset_mtime(source)
         os.link(overlaySource, self._realpath(target), follow_symlinks=False)
 
         # Hard links share all of their metadata.
-- 
2.43.0


From 919962f755a27c28796a23a98e78bb6580194fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 074/125] fix: refuse to change times and to truncate files on
 opening without a write overlay

---
 ratarmount/FuseMount.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index eae13ae..b40c80d 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -791,11 +791,12 @@ class FuseMount(fuse.Operations):
 
         # With libFUSE 3, truncate is not called separately and maybe nothing will be written afterwards.
         if (
-            self.writeOverlay
-            and flags & os.O_TRUNC
+            flags & os.O_TRUNC
             and flags & (os.O_WRONLY | os.O_RDWR)
             and not (self._enableControlInterface and path.startswith(self._controlLayerPrefix))
         ):
+            if not self.writeOverlay:
+                raise fuse.FuseOSError(errno.EROFS)
             self.writeOverlay.truncate(path, 0)
             return self._add_new_handle(self.writeOverlay.open(path, flags), flags)
 
@@ -851,6 +852,11 @@ class FuseMount(fuse.Operations):
             )
             raise fuse.FuseOSError(errno.EIO) from exception
 
+    @overrides(fuse.Operations)
+    def utimens(self, path: str, times=None) -> int:
+        # The default implementation returns success. Will be overwritten when there is a write overlay.
+        raise fuse.FuseOSError(errno.EROFS)
+
     # Methods for the write overlay which require file handle translations
 
     def _is_write_overlay_handle(self, fh):
-- 
2.43.0


From 3fa5e7ad68d94e352edaff97f39d0182e2d8ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 075/125] fix: pad the archive before committing a write
 overlay because GNU tar would damage it otherwise

---
 ratarmount/WriteOverlay.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index db131b1..7d4cfb2 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -673,6 +673,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         print()
 
         if os.stat(deletionList).st_size > 0:
+            print(f"    truncate --size='%{tarfile.RECORDSIZE}' '{tarFile}'")
             print(f"    tar --delete --null --verbatim-files-from --files-from='{deletionList}' \\")
             print(f"        --file '{tarFile}' 2>&1 |")
             print("       sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'")
@@ -699,6 +700,11 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     try:
         if input() == 'commit':
             if os.stat(deletionList).st_size > 0:
+                # GNU tar --delete damages archives whose size is not a multiple of the record size (20 * 512 B).
+                # The end of an archive may be padded with any number of zeros.
+                tarSize = os.stat(tarFile).st_size
+                os.truncate(tarFile, tarSize + (-tarSize) % tarfile.RECORDSIZE)
+
                 tarDelete = run_without_locale(
                     [
                         "tar",
-- 
2.43.0


From f0e787c4a3aef5e1c7022c21391ea69ea957ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 076/125] fix: also commit symbolic links to folders in the
 write overlay

---
 ratarmount/WriteOverlay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 7d4cfb2..35d663e 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -640,7 +640,10 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         if not writeOverlayWithTrailingSlash.endswith('/'):
             writeOverlayWithTrailingSlash += '/'
 
-        for dirpath, _, filenames in os.walk(writeOverlay, topdown=False):
+        for dirpath, dirnames, filenames in os.walk(writeOverlay, topdown=False):
+            # Symbolic links to folders are listed as folders but not walked into.
+            filenames = filenames + [name for name in dirnames if os.path.islink(os.path.join(dirpath, name))]
+
             # dirpath should be a relative path (without leading slash) as seen from the overlay folder
             if dirpath.startswith(writeOverlayWithTrailingSlash):
                 dirpath = dirpath[len(writeOverlayWithTrailingSlash) :]
-- 
2.43.0


From d915c5127adb70412c3d9b4e04caee46e105b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 077/125] fix: commit write overlays to archives with colons in
 their path

---
 ratarmount/WriteOverlay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 35d663e..b0bf22d 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -678,13 +678,13 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         if os.stat(deletionList).st_size > 0:
             print(f"    truncate --size='%{tarfile.RECORDSIZE}' '{tarFile}'")
             print(f"    tar --delete --null --verbatim-files-from --files-from='{deletionList}' \\")
-            print(f"        --file '{tarFile}' 2>&1 |")
+            print(f"        --force-local --file '{tarFile}' 2>&1 |")
             print("       sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'")
 
         if os.stat(appendList).st_size > 0:
             print(
                 f"    tar --append -C '{writeOverlay}' --null --verbatim-files-from --files-from='{appendList}' "
-                f"--file '{tarFile}'"
+                f"--force-local --file '{tarFile}'"
             )
         print()
 
@@ -714,6 +714,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                         "--delete",
                         "--null",
                         f"--files-from={deletionList}",
+                        "--force-local",  # Do not interpret names with colons as host names.
                         "--file",
                         tarFile,
                     ],
@@ -741,6 +742,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                         writeOverlay,
                         "--null",
                         f"--files-from={appendList}",
+                        "--force-local",
                         "--file",
                         tarFile,
                     ],
-- 
2.43.0


From 73a4104148a0cfa62505e498315a4582fb119897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 078/125] fix: commit write overlays containing names with
 invalid encoding

---
 ratarmount/WriteOverlay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index b0bf22d..0eb3849 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -623,14 +623,14 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         uriPath = urllib.parse.quote(databasePath)
         sqlConnection = sqlite3.connect(f"file:{uriPath}?mode=ro", uri=True)
 
-        with open(deletionList, 'a', encoding=encoding) as deletionListFile:
+        with open(deletionList, 'a', encoding=encoding, errors='surrogateescape') as deletionListFile:
             for path, name in sqlConnection.execute("SELECT path,name FROM files WHERE deleted == 1;"):
                 add_to_deletion_file(deletionListFile, f"{path}/{name}".lstrip('/'))
 
     # Delete all files to be replaced with other files
     with (
-        open(deletionList, 'a', encoding=encoding) as deletionListFile,
-        open(appendList, 'a', encoding=encoding) as appendListFile,
+        open(deletionList, 'a', encoding=encoding, errors='surrogateescape') as deletionListFile,
+        open(appendList, 'a', encoding=encoding, errors='surrogateescape') as appendListFile,
     ):
         # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
         suffixes = ['', '-journal', '-shm', '-wal']
-- 
2.43.0


From e57bc7ca640ea344404c22cee3fef8a011bc78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 079/125] fix: remove the temporary folder when there is
 nothing to commit

---
 ratarmount/WriteOverlay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 0eb3849..584a441 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -664,6 +664,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     if os.stat(deletionList).st_size == 0 and os.stat(appendList).st_size == 0:
         if printDebug >= 1:
             print("Nothing to commit.")
+        shutil.rmtree(tmpFolder)
         return
 
     # TODO Support compressed archives by maybe using tarfile to read from the original and write to a temporary?
-- 
2.43.0


From 322f65cde6f5cd1324894a008dec425618e7b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 080/125] fix: commit write overlays with pattern characters in
 file names

---
 ratarmount/WriteOverlay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 584a441..cc9158f 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -678,7 +678,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
 
         if os.stat(deletionList).st_size > 0:
             print(f"    truncate --size='%{tarfile.RECORDSIZE}' '{tarFile}'")
-            print(f"    tar --delete --null --verbatim-files-from --files-from='{deletionList}' \\")
+            print(f"    tar --delete --no-wildcards --null --verbatim-files-from --files-from='{deletionList}' \\")
             print(f"        --force-local --file '{tarFile}' 2>&1 |")
             print("       sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'")
 
@@ -713,6 +713,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                     [
                         "tar",
                         "--delete",
+                        "--no-wildcards",  # Otherwise, it would warn about names with special characters.
                         "--null",
                         f"--files-from={deletionList}",
                         "--force-local",  # Do not interpret names with colons as host names.
-- 
2.43.0


From 6f7e43ee8310dca370b0f5c78936202441ed797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 081/125] fix: return None for absent extended attributes in
 folders

---
 core/ratarmountcore/mountsource/formats/folder.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index dfea704..a822ce2 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -1,4 +1,5 @@
 import builtins
+import errno
 import os
 import shutil
 import stat
@@ -181,9 +182,14 @@ class FolderMountSource(MountSource):
 
     @overrides(MountSource)
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
-        return (
-            os.getxattr(self.get_file_path(fileInfo), key, follow_symlinks=False) if hasattr(os, 'getxattr') else None
-        )
+        if not hasattr(os, 'getxattr'):
+            return None
+        try:
+            return os.getxattr(self.get_file_path(fileInfo), key, follow_symlinks=False)
+        except OSError as exception:
+            if exception.errno == errno.ENODATA:
+                return None
+            raise
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-- 
2.43.0


From e023ed1e069d30a1c04fee36df3aaaf1625cc5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 082/125] fix: also resolve symbolic links pointing outside of
 the folder to files when indexing folders

---
 core/ratarmountcore/mountsource/formats/folder.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index a822ce2..b583697 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -278,6 +278,18 @@ class IndexedFolderMountSource(SQLiteIndexMountSource):
                         except OSError:
                             linkname = ""
 
+                        # Resolve links that point outside the folder like FolderMountSource does. Links to folders
+                        # are not resolved because those might contain this folder.
+                        if (
+                            linkname
+                            and not os.path.isabs(linkname)
+                            and max_up_count(linkname) > pathInIndex.count('/')
+                            and os.path.exists(absolutePath)
+                            and not os.path.isdir(absolutePath)
+                        ):
+                            entryStat = os.stat(absolutePath)
+                            linkname = ""
+
                     # fmt: off
                     fileInfo: tuple = (
                         pathInIndex       ,  # 0  : path
-- 
2.43.0


From f83ed7d24340e8621f418349a157568bf6c05539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 083/125] fix: do not list symbolic links to folders as folders

---
 core/ratarmountcore/mountsource/formats/folder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index b583697..f263448 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -125,10 +125,18 @@ class FolderMountSource(MountSource):
                 return self._stats_to_file_info(os.stat(realpath), realpath, "")
         return self._stats_to_file_info(os.lstat(realpath), path.lstrip('/'), linkname)
 
+    def _is_listable(self, path: str) -> bool:
+        realpath = self._realpath(path)
+        if not os.path.islink(realpath):
+            return os.path.isdir(realpath)
+        # Links are not folders except if they are shown resolved.
+        fileInfo = self.lookup(path)
+        return fileInfo is not None and stat.S_ISDIR(fileInfo.mode)
+
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not self._is_listable(path):
             return None
 
         return {
@@ -139,7 +147,7 @@ class FolderMountSource(MountSource):
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
         realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not self._is_listable(path):
             return None
 
         # https://docs.python.org/3/library/os.html#os.scandir
-- 
2.43.0


From 3ed831c13c8ae887b559c598b54a632bcf882420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 084/125] fix: show folders without their own entry in RARs as
 folders and do not list what is no folder

---
 .../ratarmountcore/mountsource/formats/rar.py | 72 ++++++++++++-------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 2c54b45..4b84c52 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -113,6 +113,21 @@ class RarMountSource(MountSource):
         )
         # fmt: on
 
+    @staticmethod
+    def _create_folder_file_info() -> FileInfo:
+        """For folders that do not have their own entry in the archive."""
+        # fmt: off
+        return FileInfo(
+            size     = 0,
+            mtime    = time.time(),
+            mode     = 0o777 | stat.S_IFDIR,
+            linkname = "",
+            uid      = get_userid(),
+            gid      = get_groupid(),
+            userdata = [None],
+        )
+        # fmt: on
+
     @overrides(MountSource)
     def is_immutable(self) -> bool:
         return True
@@ -135,30 +150,47 @@ class RarMountSource(MountSource):
 
         return filePath
 
-    @overrides(MountSource)
-    def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
+    def _list_entries(self, path: str) -> Optional[dict[str, Optional[tuple[str, "rarfile.RarInfo"]]]]:
+        """
+        Returns None if there is no such folder, else the entries of the folder.
+        The values are None for folders that do not have their own entry in the archive.
+        """
         path = path.strip('/')
         if path:
             path += '/'
+            if not any(normalizedPath.startswith(path) for normalizedPath in self.files):
+                return None
 
+        result: dict[str, Optional[tuple[str, rarfile.RarInfo]]] = {}
         # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
+        for normalizedPath, info in self.files.items():
+            name = self._get_name(path, normalizedPath)
+            if not name:
+                continue
+            if normalizedPath == path + name + '/' or (normalizedPath == path + name and name not in result):
+                result[name] = (normalizedPath, info)
+            elif normalizedPath != path + name and not (result.get(name) or ('',))[0].endswith('/'):
+                result[name] = None
+        return result
+
+    @overrides(MountSource)
+    def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
+        entries = self._list_entries(path)
+        if entries is None:
+            return None
         return {
-            self._get_name(path, normalizedPath): self._convert_to_file_info(normalizedPath, info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
+            name: RarMountSource._convert_to_file_info(*entry) if entry else RarMountSource._create_folder_file_info()
+            for name, entry in entries.items()
         }
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        path = path.strip('/')
-        if path:
-            path += '/'
-
-        # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
+        entries = self._list_entries(path)
+        if entries is None:
+            return None
         return {
-            self._get_name(path, normalizedPath): RarMountSource._get_mode(info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
+            name: RarMountSource._get_mode(entry[1]) if entry else RarMountSource._create_folder_file_info().mode
+            for name, entry in entries.items()
         }
 
     def _lookups(self, path: str) -> builtins.list[FileInfo]:
@@ -177,19 +209,7 @@ class RarMountSource(MountSource):
         if not any(info.userdata[-1][0] == pathAsDir for info in infoList) and any(
             normalizedPath.rstrip('/').startswith(pathAsDir) for normalizedPath, info in self.files.items()
         ):
-            # fmt: off
-            infoList.append(
-                FileInfo(
-                    size     = 0,
-                    mtime    = time.time(),
-                    mode     = 0o777 | stat.S_IFDIR,
-                    linkname = "",
-                    uid      = get_userid(),
-                    gid      = get_groupid(),
-                    userdata = [None],
-                )
-            )
-            # fmt: on
+            infoList.append(RarMountSource._create_folder_file_info())
 
         return infoList
 
-- 
2.43.0


From 62fa35ebd11118df59f3513d6c5c1d497fa49f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 085/125] fix: number file versions in RARs like everywhere
 else

---
 core/ratarmountcore/mountsource/formats/rar.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 4b84c52..2821579 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -202,8 +202,10 @@ class RarMountSource(MountSource):
         infoList = [
             RarMountSource._convert_to_file_info(normalizedPath, info)
             for normalizedPath, info in self.files.items()
-            if normalizedPath.rstrip('/') == path.lstrip('/')
+            if normalizedPath.rstrip('/') == path.strip('/')
         ]
+        # Folders come last because they are listed instead of files with the same path.
+        infoList.sort(key=lambda info: stat.S_ISDIR(info.mode))
 
         # Check whether some parent directories of files do not exist as separate entities in the archive.
         if not any(info.userdata[-1][0] == pathAsDir for info in infoList) and any(
@@ -216,7 +218,9 @@ class RarMountSource(MountSource):
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         infos = self._lookups(path)
-        return infos[fileVersion] if -len(infos) <= fileVersion < len(infos) else None
+        # Version 0 is the most recent one while the positive ones are counted beginning with the oldest.
+        index = fileVersion - 1 if fileVersion > 0 else len(infos) - 1 + fileVersion
+        return infos[index] if 0 <= index < len(infos) else None
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-- 
2.43.0


From 992dd58eb67ef241f5e6cc9a19a33f6ec94c47d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 086/125] fix: show members with absolute paths in RARs

---
 core/ratarmountcore/mountsource/formats/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 2821579..161a0f5 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -54,6 +54,7 @@ class RarMountSource(MountSource):
     @staticmethod
     def _clean_path(path):
         result = posixpath.normpath(path) + ('/' if path.endswith('/') else '')
+        result = result.lstrip('/')
         while result.startswith('../'):
             result = result[3:]
         return result
@@ -132,7 +133,6 @@ class RarMountSource(MountSource):
     def is_immutable(self) -> bool:
         return True
 
-    # TODO How to behave with files in archive with absolute paths? Currently, they would never be shown.
     @staticmethod
     def _get_name(folderPath, filePath):
         if not filePath.startswith(folderPath):
-- 
2.43.0


From 3ce07b41d07345a50acb4966604d13a06a478e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 087/125] fix: show the targets of symbolic links in RAR 4
 archives

---
 .../ratarmountcore/mountsource/formats/rar.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 161a0f5..aa510ca 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -92,8 +92,16 @@ class RarMountSource(MountSource):
     def _get_mode(info: "rarfile.RarInfo") -> int:
         return info.mode | (stat.S_IFLNK if info.file_redir else (stat.S_IFDIR if info.is_dir() else stat.S_IFREG))
 
-    @staticmethod
-    def _convert_to_file_info(normalizedPath: str, info: "rarfile.RarInfo") -> FileInfo:
+    def _get_link_target(self, info: "rarfile.RarInfo") -> str:
+        # file_redir is (type, flags, target) or None. Only tested for type == RAR5_XREDIR_UNIX_SYMLINK.
+        if info.file_redir:
+            return info.file_redir[2]
+        # RAR 4 and older store the target of symbolic links as file contents.
+        if stat.S_ISLNK(RarMountSource._get_mode(info)):
+            return self.fileObject.read(info).decode(errors='surrogateescape')
+        return ""
+
+    def _convert_to_file_info(self, normalizedPath: str, info: "rarfile.RarInfo") -> FileInfo:
         if info.date_time:
             dtime = datetime.datetime(*info.date_time)
             dtime = dtime.replace(tzinfo=datetime.timezone.utc)
@@ -106,8 +114,7 @@ class RarMountSource(MountSource):
             size     = info.file_size,
             mtime    = mtime,
             mode     = RarMountSource._get_mode(info),
-            # file_redir is (type, flags, target) or None. Only tested for type == RAR5_XREDIR_UNIX_SYMLINK.
-            linkname = info.file_redir[2] if info.file_redir else "",
+            linkname = self._get_link_target(info),
             uid      = get_userid(),
             gid      = get_groupid(),
             userdata = [(normalizedPath, info)],
@@ -179,7 +186,7 @@ class RarMountSource(MountSource):
         if entries is None:
             return None
         return {
-            name: RarMountSource._convert_to_file_info(*entry) if entry else RarMountSource._create_folder_file_info()
+            name: self._convert_to_file_info(*entry) if entry else RarMountSource._create_folder_file_info()
             for name, entry in entries.items()
         }
 
@@ -200,7 +207,7 @@ class RarMountSource(MountSource):
             return [create_root_file_info(userdata=[None])]
 
         infoList = [
-            RarMountSource._convert_to_file_info(normalizedPath, info)
+            self._convert_to_file_info(normalizedPath, info)
             for normalizedPath, info in self.files.items()
             if normalizedPath.rstrip('/') == path.strip('/')
         ]
-- 
2.43.0


From 7fe87c71135180d9cf27051ed7e2c4e89ff0d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 088/125] fix: find recursively mounted archives without
 leading slash

---
 core/ratarmountcore/mountsource/compositing/automount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index ce03708..02ab1d6 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -251,6 +251,7 @@ class AutoMountLayer(MountSource):
         The longest, i.e., the deepest mount point will be returned.
         """
 
+        path = '/' + path.strip('/')
         if self.maxRecursionDepth and self.lazyMounting:
             subPath = "/"
             # First go from higher paths to deeper ones and try to mount all parent archives lazily.
@@ -330,7 +331,7 @@ class AutoMountLayer(MountSource):
             for mountPoint, mountInfo in self.mounted.items():
                 folder, folderName = os.path.split(mountPoint)
                 # This also potentially updates a archive file stat result with a stat result for a folder type!
-                if folder == path and folderName and folderName:
+                if folder == '/' + path.strip('/') and folderName and folderName:
                     if isinstance(files, set):
                         files.add(folderName)
                     else:
-- 
2.43.0


From 2b0c3f6ce774cd07da04d532b62d71cd6f3bee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 089/125] fix: find paths without leading slash in EXT4 images

---
 core/ratarmountcore/mountsource/formats/ext4.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 2ec9829..0a6900b 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -135,7 +135,7 @@ class EXT4MountSource(MountSource):
     def exists(self, path: str) -> bool:
         try:
             with self.lock:
-                self.fileSystem.inode_at(path)
+                self.fileSystem.inode_at('/' + path.strip('/'))
         except (FileNotFoundError, NotADirectoryError):
             return False
         return True
@@ -143,7 +143,7 @@ class EXT4MountSource(MountSource):
     def _list(self, path: str, getValue) -> Optional[dict[str, Any]]:
         with self.lock:
             try:
-                inode = self.fileSystem.inode_at(path)
+                inode = self.fileSystem.inode_at('/' + path.strip('/'))
             except (FileNotFoundError, NotADirectoryError):
                 return None
 
@@ -172,7 +172,7 @@ class EXT4MountSource(MountSource):
 
         try:
             with self.lock:
-                return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
+                return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at('/' + path.strip('/')))
         except (FileNotFoundError, NotADirectoryError):
             pass
         return None
-- 
2.43.0


From 9b272aff8fa00c9a7af099de837b4b10dfa212b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 090/125] fix: find the root folder of SQLARs without leading
 slash

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index d2bcf79..2d691cb 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -344,7 +344,7 @@ class SQLARMountSource(MountSource):
         if fileVersion not in [0, 1]:
             return None
 
-        if path == "/":
+        if not path.strip("/"):
             return create_root_file_info([-1])
 
         if self._files:
-- 
2.43.0


From dd7ae650e71a943e97810df383f645ef59b835cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 091/125] fix: list the root folder of FAT images without
 leading slash

---
 core/ratarmountcore/mountsource/formats/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/fat.py b/core/ratarmountcore/mountsource/formats/fat.py
index 918f12c..ed51860 100644
--- a/core/ratarmountcore/mountsource/formats/fat.py
+++ b/core/ratarmountcore/mountsource/formats/fat.py
@@ -95,7 +95,7 @@ class FATMountSource(MountSource):
 
     def _list(self, path: str) -> Optional[Iterable]:
         try:
-            directories, files, _ = self.fileSystem.root_dir.get_entry(posixpath.normpath(path)).get_entries()
+            directories, files, _ = self.fileSystem.root_dir.get_entry(posixpath.normpath('/' + path.lstrip('/'))).get_entries()
         except PyFATException as exception:
             if exception.errno in [errno.ENOENT, errno.ENOTDIR]:
                 return None
-- 
2.43.0


From df3dd0976c2361695f12817672ba8ce9bd6286be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 092/125] fix: do not list folders that are hidden by files in
 other mount sources

---
 core/ratarmountcore/mountsource/compositing/union.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 893cf24..310558c 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -153,6 +153,10 @@ class UnionMountSource(MountSource):
         for mountSource in reversed(self.mountSources):
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
 
+            # Folders are hidden by files in mount sources with higher precedence.
+            if files is None and result is None and mountSource.exists(path):
+                return None
+
             if files is None:
                 if isinstance(result, dict):
                     files = result
-- 
2.43.0


From d4002f1f45f8c7ba609c09df35910fe47aff605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 093/125] fix: resolve hard links in mount sources below a
 prefix

---
 core/ratarmountcore/mountsource/compositing/removeprefix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index ed0a820..9f5dd12 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -82,7 +82,8 @@ class RemovePrefixMountSource(MountSource):
     def get_mount_source(self, fileInfo: FileInfo):
         if fileInfo == self._directory_info:
             return super().get_mount_source(fileInfo)
-        return self.mountSource.get_mount_source(fileInfo)
+        mountPoint, mountSource, sourceFileInfo = self.mountSource.get_mount_source(fileInfo)
+        return posixpath.join(self.prefix, mountPoint.lstrip('/')), mountSource, sourceFileInfo
 
     @overrides(MountSource)
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
-- 
2.43.0


From d1c89cae930a16b94eb98ebd3830428e0f15ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 094/125] fix: raise OSError like open files when seeking
 before the start

---
 core/ratarmountcore/BlockParallelReaders.py   | 12 ++++----
 core/ratarmountcore/StenciledFile.py          | 29 +++++++++----------
 .../mountsource/formats/ext4.py               |  3 +-
 3 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index 5b72dcb..f7ddeb3 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -1,4 +1,5 @@
 import bisect
+import errno
 import io
 import multiprocessing.pool
 import os
@@ -134,15 +135,14 @@ class BlockParallelReader(io.BufferedIOBase):
     @overrides(io.BufferedIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self._offset += offset
+            offset += self._offset
         elif whence == io.SEEK_END:
-            self._offset = self.blockBoundaries[-1] + offset
-        elif whence == io.SEEK_SET:
-            self._offset = offset
+            offset += self.blockBoundaries[-1]
 
-        if self._offset < 0:
-            raise ValueError("Trying to seek before the start of the file!")
+        if offset < 0:
+            raise OSError(errno.EINVAL, "Trying to seek before the start of the file!")
 
+        self._offset = offset
         return self._offset
 
     @overrides(io.BufferedIOBase)
diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 0e831d8..18b454d 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -1,5 +1,6 @@
 import bisect
 import contextlib
+import errno
 import io
 from collections.abc import Sequence
 from typing import IO, Callable, Optional
@@ -158,17 +159,15 @@ class RawStenciledFile(FixedRawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.cumsizes[-1]
 
-        if self.offset < 0:
-            raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.cumsizes[-1]:
-            return self.offset
+        # Raise the same exception as files opened with open do, e.g., zipfile.is_zipfile relies on it.
+        if offset < 0:
+            raise OSError(errno.EINVAL, "Trying to seek before the start of the file!")
 
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
@@ -396,17 +395,15 @@ class LambdaReaderFile(io.RawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.size
 
-        if self.offset < 0:
-            raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.size:
-            return self.offset
+        # Raise the same exception as files opened with open do, e.g., zipfile.is_zipfile relies on it.
+        if offset < 0:
+            raise OSError(errno.EINVAL, "Trying to seek before the start of the file!")
 
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 0a6900b..d669bbc 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -1,3 +1,4 @@
+import errno
 import io
 import threading
 import types
@@ -79,7 +80,7 @@ class EXT4File(io.RawIOBase):
         elif whence == io.SEEK_END:
             offset += self._size
         if offset < 0:
-            raise ValueError("Trying to seek before the start of the file!")
+            raise OSError(errno.EINVAL, "Trying to seek before the start of the file!")
         self._offset = offset
         return self._offset
 
-- 
2.43.0


From 277dfa2e9b321b146e893a091066bbe590d9e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 095/125] fix: do not mix up the positions of files opened from
 RARs given as file object

---
 .../ratarmountcore/mountsource/formats/rar.py | 64 ++++++++++++++++++-
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index aa510ca..141f40e 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -1,16 +1,18 @@
 import builtins
 import contextlib
 import datetime
+import io
 import posixpath
 import stat
 import sys
+import threading
 import time
 from collections.abc import Iterable
-from typing import IO, Optional, Union
+from typing import IO, Optional, Union, cast
 
 from ratarmountcore.formats import FileFormatID, replace_format_check
 from ratarmountcore.mountsource import FileInfo, MountSource, create_root_file_info
-from ratarmountcore.utils import get_groupid, get_userid, overrides
+from ratarmountcore.utils import FixedRawIOBase, get_groupid, get_userid, overrides
 
 with contextlib.suppress(ImportError):
     import rarfile
@@ -39,6 +41,54 @@ def is_rar_file(fileObject: IO[bytes]) -> bool:
 replace_format_check(FileFormatID.RAR, is_rar_file)
 
 
+class RawRarMemberFile(FixedRawIOBase):
+    """
+    All files opened by rarfile share the position of the archive if the archive is a file object,
+    and only RarExtFile.read seeks to the right one, RarExtFile.readinto does not.
+    """
+
+    def __init__(self, fileObject: IO[bytes], lock: threading.RLock) -> None:
+        super().__init__()
+        self._fileObject = fileObject
+        self._lock = lock
+
+    @overrides(io.RawIOBase)
+    def close(self) -> None:
+        if not self.closed:
+            self._fileObject.close()
+        super().close()
+
+    @overrides(io.RawIOBase)
+    def readable(self) -> bool:
+        return True
+
+    @overrides(io.RawIOBase)
+    def seekable(self) -> bool:
+        return True
+
+    @overrides(io.RawIOBase)
+    def readinto(self, buffer) -> int:
+        with memoryview(buffer) as view, view.cast("B") as byteView:
+            with self._lock:
+                data = self._fileObject.read(len(byteView))
+            byteView[: len(data)] = data
+            return len(data)
+
+    @overrides(io.RawIOBase)
+    def readall(self) -> bytes:
+        with self._lock:
+            return self._fileObject.read()
+
+    @overrides(io.RawIOBase)
+    def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        with self._lock:
+            return self._fileObject.seek(offset, whence)
+
+    @overrides(io.RawIOBase)
+    def tell(self) -> int:
+        return self._fileObject.tell()
+
+
 class RarMountSource(MountSource):
     # Basically copy paste of ZipMountSource because the interfaces are very similar.
     def __init__(self, fileOrPath: Union[str, IO[bytes]], **options) -> None:
@@ -46,6 +96,7 @@ class RarMountSource(MountSource):
             raise RuntimeError("Did not find the rarfile module. Try: pip install rarfile")
 
         self.fileObject = rarfile.RarFile(fileOrPath, 'r')
+        self._lock = threading.RLock() if hasattr(fileOrPath, 'read') else None
         RarMountSource._find_password(self.fileObject, options.get("passwords", []))
 
         self.files = {RarMountSource._clean_path(info.filename): info for info in self.fileObject.infolist()}
@@ -238,7 +289,14 @@ class RarMountSource(MountSource):
         # I do not see any obvious option to rarfile.RarFile to apply the specified buffer size.
         info = fileInfo.userdata[-1][1]
         assert isinstance(info, rarfile.RarInfo)
-        return self.fileObject.open(info, 'r')
+        if not self._lock:
+            return self.fileObject.open(info, 'r')
+
+        with self._lock:
+            raw = RawRarMemberFile(self.fileObject.open(info, 'r'), self._lock)
+        if buffering == 0:
+            return cast(IO[bytes], raw)
+        return io.BufferedReader(raw, io.DEFAULT_BUFFER_SIZE if buffering <= 1 else buffering)
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-- 
2.43.0


From 1b381b711d327b8549fb14f34bec7b68961aeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 096/125] fix: detect formats of file objects and open them
 from their beginning

---
 core/ratarmountcore/mountsource/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/factory.py b/core/ratarmountcore/mountsource/factory.py
index ed355c9..8de5ad5 100644
--- a/core/ratarmountcore/mountsource/factory.py
+++ b/core/ratarmountcore/mountsource/factory.py
@@ -3,6 +3,7 @@
 
 import contextlib
 import http
+import io
 import logging
 import os
 import re
@@ -316,6 +317,9 @@ def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options)
             autoPrioritizedBackends = find_backends_by_extension(fileOrPath)
     else:
         autoPrioritizedBackends = find_backends_by_extension(options.get('tarFileName', ''))
+        # Paths are always opened at the beginning, so do the same for file objects.
+        with contextlib.suppress(AttributeError, io.UnsupportedOperation):
+            fileOrPath.seek(0)  # type: ignore
 
     prioritizedBackends = options.get("prioritizedBackends", [])
     triedBackends = set()
-- 
2.43.0


From def49213be9a22d53ada57ccdee3289011424896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 097/125] fix: do not share the hashes of all files in an ASAR
 archive

---
 core/ratarmountcore/mountsource/formats/asar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/asar.py b/core/ratarmountcore/mountsource/formats/asar.py
index 04fe9a2..41c3aa5 100644
--- a/core/ratarmountcore/mountsource/formats/asar.py
+++ b/core/ratarmountcore/mountsource/formats/asar.py
@@ -94,7 +94,7 @@ class ASARMountSource(SQLiteIndexMountSource):
 
         self._finalize_index(self._create_index)
 
-    def _convert_to_row(self, fullPath, entry: dict[str, Any], dataOffset: int) -> tuple:
+    def _convert_to_row(self, fullPath, entry: dict[str, Any], dataOffset: int, entryIndex: int) -> tuple:
         path, name = SQLiteIndex.normpath(self.transform(fullPath)).rsplit("/", 1)
 
         isFile = 'offset' in entry and 'size' in entry
@@ -109,7 +109,7 @@ class ASARMountSource(SQLiteIndexMountSource):
         fileInfo : tuple = (
             path              ,  # 0  : path
             name              ,  # 1  : file name
-            0                 ,  # 2  : header offset
+            entryIndex        ,  # 2  : header offset. Must be unique because it also identifies the xattrs.
             offset            ,  # 3  : data offset
             size              ,  # 4  : file size
             0                 ,  # 5  : modification time
@@ -135,12 +135,17 @@ class ASARMountSource(SQLiteIndexMountSource):
 
         # This code is complex to avoid recursion.
         toProcess = [("/", header)]
-        fileInfos = [self._convert_to_row("/", header, self._dataOffset)]
+        entryCount = 1
+        fileInfos = [self._convert_to_row("/", header, self._dataOffset, 0)]
         while toProcess:
             prefix, entry = toProcess.pop()
             children = [(prefix + "/" + path, nestedEntry) for path, nestedEntry in entry['files'].items()]
             # toProcess must only contain folder entries, which have a 'files' key mapping to a dictionary.
-            fileInfos += [self._convert_to_row(path, nestedEntry, self._dataOffset) for path, nestedEntry in children]
+            fileInfos += [
+                self._convert_to_row(path, nestedEntry, self._dataOffset, entryCount + i)
+                for i, (path, nestedEntry) in enumerate(children)
+            ]
+            entryCount += len(children)
             # Appending leads to depth-first traversal, while prepending leads to breadth-first traversal.
             # Depth-first should be slightly less memory intensive. Note that the dictionary should only store
             # a pointer to the shared mutable Python object, but the path strings will use up memory.
-- 
2.43.0


From 0b9afac7025018196b914778edcdcfb1594aefdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 098/125] fix: also compute hashes for compressed files without
 archive

---
 core/ratarmountcore/SQLiteIndex.py             | 2 +-
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 5f94d51..da792ad 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -188,7 +188,7 @@ class SQLiteIndex:
     #     SELECT 1 FROM "files" AS t2 WHERE isTar AND t1.offsetheader BETWEEN t2.offset AND t2.offset + t2.size - 1
     # )
     # As an alternative, exempt the path from the consistency check.
-    # Note also that for pure compressed files such as simple.bz2, the offsetheader can be None.
+    # Note also that for pure compressed files such as simple.bz2, the offsetheader can be None in older indexes.
     # These rows should also be filtered.
     #
     # How to test the mode for being of regular file type correctly:
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index a3996c2..f6e83e6 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1020,7 +1020,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             fileInfo = (
                 ""                                    ,  # 0  : path
                 fname                                 ,  # 1  : file name
-                None                                  ,  # 2  : header offset
+                0                                     ,  # 2  : header offset. Hashes need one.
                 0                                     ,  # 3  : data offset
                 fileSize                              ,  # 4  : file size
                 tarInfo.st_mtime if tarInfo else mtime,  # 5  : modification time
-- 
2.43.0


From e6d4dd381ef017946b760afc1561eac41e4991b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 099/125] fix: do not apply path transformations to the slash
 that ends names in AR archives

---
 core/ratarmountcore/mountsource/formats/ar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index ef70e7c..3a32eed 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -146,6 +146,10 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
 
             continue
 
+        # GNU archives terminate short names with a slash, which is not part of the path.
+        if len(name) > 1 and name.endswith(b'/'):
+            name = name[:-1]
+
         if name.startswith(BSD_LONG_NAME_PREFIX):
             # https://man.freebsd.org/cgi/man.cgi?query=ar&sektion=5&manpath=4.3BSD+NET%2F2
             # > If any file name is more than 16 characters in length or contains an embedded space,
-- 
2.43.0


From b894c280b078e3711f4235a2d399beab69c85782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 100/125] fix: only join split files when the opened file is
 one of the parts

---
 core/ratarmountcore/compressions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index 5a6162e..b43beaa 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -319,7 +319,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
     # These character tests are necessary because Python's built-in isalpha, isdigit and such
     # all also return true for a lot of Unicode alternatives like for the Thai zero.
 
-    filename = os.path.split(os.path.realpath(path))[1]  # Get file extensions
+    # Do not resolve links because the path might only exist inside an archive and candidateNames has the linked names.
+    filename = os.path.basename(path)
     if '.' not in filename:
         return None
     basename, extension = filename.rsplit('.', maxsplit=1)
@@ -327,9 +328,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
     # Collect all other files in the folder that might belong to the same split.
     extensions = [name[len(basename) + 1 :] for name in candidateNames if name.startswith(basename + '.')]
     extensions = [e for e in extensions if has_matching_alphabets(e, extension)]
-    if not extensions:
+    if extension not in extensions:
         return None
-    assert extension in extensions
 
     # Note that even if something consists only of letters or only digits it still might be hexadecimal encoding!
     maxFormatSpecifier = ''
@@ -338,7 +338,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
         extensionSequence = check_for_sequence(
             extensions, lambda i, baseDigits=baseDigits: format_number(i, baseDigits, len(extension))  # type: ignore
         )
-        if len(extensionSequence) > len(maxExtensions):
+        # The given file must also belong to the sequence, e.g., ignore foo.aaa and foo.aab when opening foo.tar.
+        if extension in extensionSequence and len(extensionSequence) > len(maxExtensions):
             maxFormatSpecifier = formatSpecifier
             maxExtensions = extensionSequence
 
-- 
2.43.0


From 941f669cc7affce9f4b80fecf8cc97ef5302b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 101/125] fix: also join split files inside recursively mounted
 archives

---
 core/ratarmountcore/mountsource/compositing/automount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 02ab1d6..793d282 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -178,7 +178,8 @@ class AutoMountLayer(MountSource):
         # We need to list the whole parent folder to successfully check for split files.
         joinedFile: Optional[IO[bytes]] = None
         if FIRST_SPLIT_EXTENSION_REGEX.fullmatch(os.path.splitext(path)[1]):
-            parentFolder, splitCandidateName = os.path.split(path)
+            # All paths must be relative to the parent mount source because it is used for listing and opening.
+            parentFolder, splitCandidateName = os.path.split(pathInsideParentMountPoint)
             listResult = parentMountSource.list_mode(parentFolder)
             if not listResult:
                 return None
-- 
2.43.0


From 017bf7b71c648e1a667d32b63c37c386bc7dfad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 102/125] fix: do not take folders for parts of split files

---
 core/ratarmountcore/compressions.py                      | 4 +++-
 core/ratarmountcore/mountsource/compositing/automount.py | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index b43beaa..c6a05bd 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -352,7 +352,9 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
 
 def check_for_split_file_in_folder(path: str) -> Optional[tuple[list[str], str]]:
     try:
-        return check_for_split_file_in(path, os.listdir(os.path.dirname(path) or '.'))
+        folder = os.path.dirname(path) or '.'
+        # Folders cannot be parts of a split file.
+        return check_for_split_file_in(path, [n for n in os.listdir(folder) if not os.path.isdir(os.path.join(folder, n))])
     except FileNotFoundError:
         pass
     return None
diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 793d282..f74ce97 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -184,7 +184,12 @@ class AutoMountLayer(MountSource):
             if not listResult:
                 return None
 
-            parentFolderList = listResult.keys() if isinstance(listResult, dict) else listResult
+            # Folders cannot be parts of a split file.
+            parentFolderList = (
+                [name for name, mode in listResult.items() if not stat.S_ISDIR(mode)]
+                if isinstance(listResult, dict)
+                else listResult
+            )
             splitFileResult = check_for_split_file_in(splitCandidateName, parentFolderList)
             if not splitFileResult:
                 return None
-- 
2.43.0


From 1050f996fad74273eb535485b4ff69e19dbad840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 103/125] fix: remove the whole protocol from paths given to
 the fsspec interface

---
 core/ratarmountcore/SQLiteIndexedTarFsspec.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndexedTarFsspec.py b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
index 21b203e..0740eee 100644
--- a/core/ratarmountcore/SQLiteIndexedTarFsspec.py
+++ b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
@@ -20,7 +20,7 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
 
     @classmethod
     def _stripProtocol(cls, path):  # noqa # Overwrites fsspec.spec.AbstractFileSystem._stripProtocol!
-        return path[-len(cls.protocol) - 3] if path.startswith(cls.protocol + '://') else path
+        return path[len(cls.protocol) + 3 :] if path.startswith(cls.protocol + '://') else path
 
     @staticmethod
     def _file_info_to_dict(name, fileInfo):
@@ -41,10 +41,11 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
         # > - type of entry, “file”, “directory” or other
         # How can something with "spec" in its name not be fully specified ... But the returned paths have to be
         # a full path.
+        strippedPath = self._stripProtocol(path)
+
         def prefix_path(name):
-            return f"{path.rstrip('/')}/{name}" if path else name
+            return f"{strippedPath.rstrip('/')}/{name}" if strippedPath else name
 
-        strippedPath = self._stripProtocol(path)
         if detail:
             result = self.mountSource.list(strippedPath)
             if result is None:
@@ -64,10 +65,11 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
 
     @overrides(fsspec.spec.AbstractFileSystem)
     def info(self, path, **kwargs):
-        result = self.mountSource.lookup(self._stripProtocol(path))
+        strippedPath = self._stripProtocol(path)
+        result = self.mountSource.lookup(strippedPath)
         if result is None:
             raise FileNotFoundError(path)
-        return self._file_info_to_dict(path, result)
+        return self._file_info_to_dict(strippedPath, result)
 
     @overrides(fsspec.spec.AbstractFileSystem)
     def _open(
-- 
2.43.0


From 4651e011f13c0c32bf18f07778e76b5414625acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 104/125] fix: list the right names and folders via fsspec for
 sources that only list names

---
 core/ratarmountcore/SQLiteIndexedTarFsspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndexedTarFsspec.py b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
index 0740eee..5df4eb0 100644
--- a/core/ratarmountcore/SQLiteIndexedTarFsspec.py
+++ b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
@@ -51,7 +51,7 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
             if result is None:
                 raise FileNotFoundError(path)
             if not isinstance(result, dict):
-                result = {prefix_path(name): self.mountSource.lookup(name) for name in result}
+                result = {name: self.mountSource.lookup(prefix_path(name)) for name in result}
             return [
                 self._file_info_to_dict(prefix_path(name), info) for name, info in result.items() if info is not None
             ]
-- 
2.43.0


From 0ff3b184be2159203cf0018d68497a5edfbbb410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 105/125] fix: do not require target_options when opening
 chained fsspec URLs

---
 core/ratarmountcore/SQLiteIndexedTarFsspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndexedTarFsspec.py b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
index 5df4eb0..2b05d56 100644
--- a/core/ratarmountcore/SQLiteIndexedTarFsspec.py
+++ b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
@@ -116,7 +116,7 @@ class SQLiteIndexedTarFileSystem(MountSourceFileSystem):
         if isinstance(fo, str):
             # Implement URL chaining such as when calling fsspec.open("ratar://bar::file://single-file.tar").
             if target_protocol:
-                self._open_file = fsspec.open(fo, protocol=target_protocol, **target_options)
+                self._open_file = fsspec.open(fo, protocol=target_protocol, **(target_options or {}))
                 # Set the TAR file name so that the index can be found/stored accordingly.
                 if target_protocol == 'file':
                     options['tarFileName'] = fo
-- 
2.43.0


From 66c0559c6182dec3286d58408e0a15f7d883ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 106/125] fix: list existing files via fsspec instead of
 raising FileNotFoundError

---
 core/ratarmountcore/SQLiteIndexedTarFsspec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndexedTarFsspec.py b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
index 2b05d56..73da0e0 100644
--- a/core/ratarmountcore/SQLiteIndexedTarFsspec.py
+++ b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
@@ -49,7 +49,8 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
         if detail:
             result = self.mountSource.list(strippedPath)
             if result is None:
-                raise FileNotFoundError(path)
+                # Same as for other file systems, listing a file returns only that file.
+                return [self.info(path)]
             if not isinstance(result, dict):
                 result = {name: self.mountSource.lookup(prefix_path(name)) for name in result}
             return [
@@ -58,7 +59,7 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
 
         result = self.mountSource.list_mode(strippedPath)
         if result is None:
-            raise FileNotFoundError(path)
+            return [self.info(path)['name']]
         if isinstance(result, dict):
             return [prefix_path(name) for name in result]
         return [prefix_path(name) for name in result]
-- 
2.43.0


From 505223fcc00c4eb4ff43518d7750eb423b80285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 107/125] fix: show hard links with their contents and sizes
 via fsspec

---
 core/ratarmountcore/SQLiteIndexedTarFsspec.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndexedTarFsspec.py b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
index 73da0e0..a5b4f4a 100644
--- a/core/ratarmountcore/SQLiteIndexedTarFsspec.py
+++ b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
@@ -5,6 +5,7 @@ import stat
 import fsspec
 
 from .mountsource import MountSource
+from .mountsource.compositing.versioning import FileVersionLayer
 from .mountsource.formats.tar import SQLiteIndexedTar
 from .utils import overrides
 
@@ -53,6 +54,11 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
                 return [self.info(path)]
             if not isinstance(result, dict):
                 result = {name: self.mountSource.lookup(prefix_path(name)) for name in result}
+            # Hard links are listed without file type and size. Only lookup resolves them.
+            result = {
+                name: self.mountSource.lookup(prefix_path(name)) if info and not stat.S_IFMT(info.mode) else info
+                for name, info in result.items()
+            }
             return [
                 self._file_info_to_dict(prefix_path(name), info) for name, info in result.items() if info is not None
             ]
@@ -137,7 +143,8 @@ class SQLiteIndexedTarFileSystem(MountSourceFileSystem):
         if fo:
             options['fileObject'] = fo
 
-        super().__init__(SQLiteIndexedTar(**options))
+        # The file version layer also resolves hard links.
+        super().__init__(FileVersionLayer(SQLiteIndexedTar(**options)))
 
 
 # Only in case the entry point hooks in the pyproject.toml are not working for some reason.
-- 
2.43.0


From 90dbd613d6972b1968eba7d680b11302cea455a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 108/125] fix: list folders in fsspec archive file systems

---
 core/ratarmountcore/mountsource/formats/fsspec.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/fsspec.py b/core/ratarmountcore/mountsource/formats/fsspec.py
index 2012ee5..6efd580 100644
--- a/core/ratarmountcore/mountsource/formats/fsspec.py
+++ b/core/ratarmountcore/mountsource/formats/fsspec.py
@@ -13,6 +13,11 @@ try:
 except ImportError:
     fsspec = None  # type: ignore
 
+try:
+    from fsspec.archive import AbstractArchiveFileSystem
+except ImportError:
+    AbstractArchiveFileSystem = None  # type: ignore
+
 try:
     from fsspec.implementations.http import HTTPFileSystem
 except ImportError:
@@ -112,7 +117,9 @@ class FSSpecMountSource(MountSource):
         #  - tests/nested-tar.tar -> no leading / only works with this fix
         #  - tests/single-file-with-leading-dot-slash.tar -> not working at all.
         #       We cannot test all possible denormalized paths when a normalized path is requested via FUSE.
-        if not self.fileSystem.lexists(path) and self.fileSystem.lexists(path.lstrip("/")):
+        # Newer versions ignore leading slashes in all methods except for listing folders.
+        isArchive = AbstractArchiveFileSystem is not None and isinstance(self.fileSystem, AbstractArchiveFileSystem)
+        if (isArchive or not self.fileSystem.lexists(path)) and self.fileSystem.lexists(path.lstrip("/")):
             path = path.lstrip("/")
         return path
 
-- 
2.43.0


From 2f50541da4a0b2ffffaa84b60bf9af38b5e17dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 109/125] fix: do not close file objects given to the HTML
 mount source

---
 core/ratarmountcore/mountsource/formats/html.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/html.py b/core/ratarmountcore/mountsource/formats/html.py
index d2f694e..aaf4610 100644
--- a/core/ratarmountcore/mountsource/formats/html.py
+++ b/core/ratarmountcore/mountsource/formats/html.py
@@ -1,4 +1,5 @@
 import base64
+import contextlib
 import encodings
 import hashlib
 import html
@@ -430,11 +431,13 @@ class HTMLMountSource(SQLiteIndexMountSource):
         self.mtime = os.stat(fileOrPath).st_mtime if isinstance(fileOrPath, str) else time.time()
 
         # html.parser seems to be very lenient. Therefore, check manually and hope that the check is lenient enough.
-        with open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else fileOrPath as file:
+        # File objects given by the caller are not owned by this class and must stay open.
+        with open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else contextlib.nullcontext(fileOrPath) as file:
             if not is_html_file(file):
                 raise ValueError("Not a valid HTML file!")
 
         self.fileObjectLock = threading.Lock()
+        self._close_file_object = isinstance(fileOrPath, str)
         self.fileObject = (
             open(fileOrPath, encoding=encoding)  # open in text mode!
             if isinstance(fileOrPath, str)
@@ -514,4 +517,9 @@ class HTMLMountSource(SQLiteIndexMountSource):
         if lock := getattr(self, 'fileObjectLock', None):
             with lock:
                 if fobj := getattr(self, 'fileObject', None):
-                    fobj.close()
+                    self.fileObject = None
+                    if self._close_file_object:
+                        fobj.close()
+                    else:
+                        # Closing (or deleting) the wrapper would also close the file object given by the caller.
+                        fobj.detach()
-- 
2.43.0


From a06da2161cc29ebd34567ae303fe4e9d20b352a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 110/125] fix: decode percent-encoded bytes and unpadded base64
 in data URLs correctly

---
 .../mountsource/formats/html.py               | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/html.py b/core/ratarmountcore/mountsource/formats/html.py
index aaf4610..3d97455 100644
--- a/core/ratarmountcore/mountsource/formats/html.py
+++ b/core/ratarmountcore/mountsource/formats/html.py
@@ -256,21 +256,21 @@ class DataURLFile(io.BytesIO):
         self.encoding = 'ascii'  # https://docs.python.org/3/library/codecs.html#standard-encodings
         self.is_base64 = False
 
-        data = urllib.parse.unquote(html.unescape(data_url or ""))
+        # Only unquote the parts after splitting at the comma because the data might contain arbitrary quoted bytes.
+        data = html.unescape(data_url or "")
         match = DATA_URL_REGEX.match(data)
         if not match:
             super().__init__()
             return
 
         if mime_type := match.group('mime_type'):
-            self.mime_type = mime_type
+            self.mime_type = urllib.parse.unquote(mime_type)
 
         if parameters := match.group('parameters'):
-            if parameters.endswith(';base64'):
-                self.is_base64 = True
-
-            for parameter in parameters.split(';'):
+            for parameter in urllib.parse.unquote(parameters).split(';'):
                 parameter = parameter.strip().lower()
+                self.is_base64 = parameter == 'base64'  # Must be the last one.
+
                 if parameter in {'utf-8', 'utf8'}:
                     self.encoding = 'utf8'
                     continue
@@ -288,8 +288,24 @@ class DataURLFile(io.BytesIO):
                     self.encoding = standard_encoding.name
 
         data = data[match.end() :]
-        decoded = base64.b64decode(data) if self.is_base64 else data.encode(self.encoding)
-        super().__init__(decoded)
+        super().__init__(self._decode_base64(data) if self.is_base64 else self._decode_text(data))
+
+    @staticmethod
+    def _decode_base64(data: str) -> bytes:
+        # Ignore whitespace and the padding, which often is missing, instead of raising an exception.
+        # https://infra.spec.whatwg.org/#forgiving-base64-decode
+        stripped = re.sub('[^A-Za-z0-9+/]', '', urllib.parse.unquote(data))
+        if len(stripped) % 4 == 1:
+            stripped = stripped[:-1]
+        return base64.b64decode(stripped + '=' * (-len(stripped) % 4))
+
+    def _decode_text(self, data: str) -> bytes:
+        try:
+            encoded = data.encode(self.encoding)
+        except (LookupError, UnicodeError):
+            # The charset is missing or wrong. Browsers use UTF-8 for all characters in URLs.
+            encoded = data.encode('utf-8', 'surrogateescape')
+        return urllib.parse.unquote_to_bytes(encoded)
 
 
 # > A name consists of a letter followed by letters, digits, periods, or
-- 
2.43.0


From b748343081510d0d1e1f650c7bb09c2eaaf9271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 111/125] fix: find all data URLs in HTMLs independent of
 length, line endings, and special characters

---
 .../mountsource/formats/html.py               | 236 ++++++++----------
 1 file changed, 101 insertions(+), 135 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/html.py b/core/ratarmountcore/mountsource/formats/html.py
index 3d97455..a85b60b 100644
--- a/core/ratarmountcore/mountsource/formats/html.py
+++ b/core/ratarmountcore/mountsource/formats/html.py
@@ -103,12 +103,12 @@ class LineOffset:
 
 
 @dataclass
-class EmbeddedFileCandidate:
+class EmbeddedTag:
     # line number (starting at 1) and character offset
-    original_url: str
-    attribute: str
     start: LineOffset
-    next: Optional[LineOffset] = None
+    text: str
+    # Maps names of attributes with non-empty data URLs to the original URLs
+    attributes: dict[str, str]
 
 
 # https://datatracker.ietf.org/doc/html/rfc2397
@@ -133,15 +133,13 @@ class HTMLDataURLParser(HTMLParser):
     """Parser to extract data URLs from HTML elements."""
 
     def __init__(self) -> None:
-        # handle_data() might be called more than once if convert_charrefs is false.
-        # However, it might be necessary to gather all char refs to correctly compute offsets to data URLs.
-        # TODO It's a nightmare. For now, let's ignore char/ent refs.
-        # https://en.wikipedia.org/wiki/Standard_Generalized_Markup_Language#Document_validity
-        # https://en.wikipedia.org/wiki/XML#Escaping
+        # Character references are converted in order to see data URLs in attributes as they are meant to be.
+        # But, they must not be converted in text because we need the offsets into the unconverted text.
+        # Therefore, for text, only the position is stored.
         super().__init__(convert_charrefs=True)
-        self.files: list[EmbeddedFileCandidate] = []
-        self._char_refs: list[LineOffset] = []
-        self._entity_refs: list[LineOffset] = []
+        self.tags: list[EmbeddedTag] = []
+        # Start and end positions of text. HTMLParser may call handle_data multiple times for contiguous text.
+        self.texts: list[tuple[LineOffset, Optional[LineOffset]]] = []
 
     @overrides(HTMLParser)
     def handle_starttag(self, tag: str, attrs: list[tuple[str, Optional[str]]]) -> None:
@@ -149,14 +147,14 @@ class HTMLDataURLParser(HTMLParser):
         For instance, for the tag <A HREF="https://www.cwi.nl/">, this method would be called as
         handle_starttag('a', [('href', 'https://www.cwi.nl/')]).
         """
-        self._update_end_offset()
+        self._finish_text()
 
-        # getpos gives the start offset of the current tag.
         attributes = {
             attribute: value
             for attribute, value in attrs
             if (value and value.startswith('data:')) or (attribute and attribute.startswith('data-savepage-'))
         }
+        embedded = {}
         for attribute, value in attributes.items():
             if not value or not value.startswith('data:'):
                 continue
@@ -166,16 +164,13 @@ class HTMLDataURLParser(HTMLParser):
             if comma < 0 or comma + 1 >= len(value):
                 continue
 
-            self.files.append(
-                EmbeddedFileCandidate(
-                    original_url=attributes.get('data-savepage-' + attribute, '') or '',
-                    attribute=attribute,
-                    start=LineOffset(*self.getpos()),
-                )
-            )
+            embedded[attribute] = attributes.get('data-savepage-' + attribute, '') or ''
+
+        if embedded:
+            # getpos gives the start offset of the current tag.
+            self.tags.append(EmbeddedTag(LineOffset(*self.getpos()), self.get_starttag_text() or '', embedded))
 
-    # Overwrite all other handles so that we can extract a guess for the end position corresponding to the
-    # getpos result in handle_starttag.
+    # Overwrite all other handles so that we can extract the end position of text.
 
     @overrides(HTMLParser)
     def handle_endtag(self, tag: str) -> None:
@@ -183,59 +178,32 @@ class HTMLDataURLParser(HTMLParser):
         Note that there are start tags without end tags, e.g., <br>. They will trigger this method.
         But tags with such as <iframe .../> will trigger the handle_starttag and handle_endtag methods.
         """
-        self._update_end_offset()
+        self._finish_text()
 
     @overrides(HTMLParser)
     def handle_data(self, data: str) -> None:
-        self._update_end_offset()
-
-        # Search in data because sometimes it may contain further data URIs, e.g., in CSS style sheets such as:
-        # /*savepage-url=/assets/fonts/robotocondensed-regular-webfont.ttf*/url(data:application/x-font-ttf;base64,...
-        line, offset = self.getpos()
-
-        self.files.extend(
-            EmbeddedFileCandidate(
-                original_url=match.groupdict().get('original_url', ''),
-                attribute='',
-                start=LineOffset(line, offset + match.span('data_url')[0]),
-                next=LineOffset(line, offset + match.span('data_url')[1]),
-            )
-            for matches in (
-                DATA_URL_IN_CSS.finditer(data),
-                DATA_URL_SINGLE_QUOTE.finditer(data),
-                DATA_URL_DOUBLE_QUOTE.finditer(data),
-            )
-            for match in matches
-        )
+        if not self.texts or self.texts[-1][1] is not None:
+            self.texts.append((LineOffset(*self.getpos()), None))
 
     @overrides(HTMLParser)
-    def handle_decl(self, data: str) -> None:
-        self._update_end_offset()
+    def handle_comment(self, data: str) -> None:
+        self._finish_text()
 
     @overrides(HTMLParser)
-    def handle_entityref(self, name: str) -> None:
-        self._entity_refs.append(LineOffset(*self.getpos()))
+    def handle_decl(self, data: str) -> None:
+        self._finish_text()
 
     @overrides(HTMLParser)
-    def handle_charref(self, name: str) -> None:
-        self._char_refs.append(LineOffset(*self.getpos()))
+    def handle_pi(self, data: str) -> None:
+        self._finish_text()
 
-    def _update_end_offset(self) -> None:
-        if not self.files:
-            return
-
-        # getpos can sometimes be equal to the 'start', e.g., for <iframe/> because it seems that handle_starttag
-        # and handle_endtag get triggered from the same position.
-        file = self.files[-1]
-        if file.next is not None or LineOffset(*self.getpos()) == file.start:
-            return
+    @overrides(HTMLParser)
+    def unknown_decl(self, data: str) -> None:
+        self._finish_text()
 
-        self.files[-1] = EmbeddedFileCandidate(
-            original_url=file.original_url,
-            attribute=file.attribute,
-            start=file.start,
-            next=LineOffset(*self.getpos()),
-        )
+    def _finish_text(self) -> None:
+        if self.texts and self.texts[-1][1] is None:
+            self.texts[-1] = (self.texts[-1][0], LineOffset(*self.getpos()))
 
 
 class DataURLFile(io.BytesIO):
@@ -310,7 +278,9 @@ class DataURLFile(io.BytesIO):
 
 # > A name consists of a letter followed by letters, digits, periods, or
 # > hyphens. The length of a name is limited to 72 characters
-HTML_NAME_PATTERN = "[A-Za-z][A-Za-z0-9.-]*"
+# In practice, tags and attributes with almost arbitrary characters are used, e.g., "xlink:href" or "@click".
+HTML_NAME_PATTERN = "[A-Za-z][^\\s/>]*"
+HTML_ATTRIBUTE_NAME_PATTERN = "[^\\s/>][^\\s/>=]*"
 
 # 3.2.4. Attributes
 #
@@ -331,9 +301,11 @@ HTML_NAME_PATTERN = "[A-Za-z][A-Za-z0-9.-]*"
 #
 #          NOTE - Some historical implementations allow any
 #          character except space or `>' in a name token.
-HTML_ATTRIBUTE_VALUE_PATTERN = """(?P<value>'[^']*'|"[^"]*"|[A-Za-z0-9.-]*)"""
-HTML_ATTRIBUTE_PATTERN = "(?P<attribute>" + HTML_NAME_PATTERN + r")(\s*=\s*" + HTML_ATTRIBUTE_VALUE_PATTERN + ")?"
-HTML_ATTRIBUTE_REGEX = re.compile(fr"\s+{HTML_ATTRIBUTE_PATTERN}")
+HTML_ATTRIBUTE_VALUE_PATTERN = """(?P<value>'[^']*'|"[^"]*"|[^'"\\s>][^\\s>]*|)"""
+HTML_ATTRIBUTE_PATTERN = (
+    "(?P<attribute>" + HTML_ATTRIBUTE_NAME_PATTERN + r")(\s*=\s*" + HTML_ATTRIBUTE_VALUE_PATTERN + ")?"
+)
+HTML_ATTRIBUTE_REGEX = re.compile(fr"[\s/]*{HTML_ATTRIBUTE_PATTERN}")
 HTML_START_TAG_REGEX = re.compile(f"<{HTML_NAME_PATTERN}")
 
 
@@ -353,7 +325,7 @@ def _find_tag_attribute_spans(data: str, attribute: str) -> tuple[int, int]:
     position = startTag.end()
     while match := HTML_ATTRIBUTE_REGEX.match(data, position):
         position = match.end()
-        if match.group('attribute') == attribute:
+        if match.group('attribute').lower() == attribute and match.group('value'):
             result = match.span('value')
             return (result[0] + 1, result[1] - 1) if data[result[0]] in ["'", '"'] else result
 
@@ -368,26 +340,45 @@ class EmbeddedFile:
 
 
 def gather_embedded_files(fileobj: IO[str]) -> list[EmbeddedFile]:
+    # Read everything at once because HTMLParser splits text at the end of each chunk fed to it and because tags
+    # might become arbitrarily large with embedded data, i.e., it would buffer most of it anyway.
+    html_text = fileobj.read()
+
     # In order to convert (line number, row) into a file offset we need to know the character offsets
     # for each line, or even better, the byte offsets for each line! In the worst case, the whole HTML
     # will be on a single line!
     lineOffsets: list[int] = [0]  # list index -> character offset
+    position = 0
+    while (position := html_text.find('\n', position)) >= 0:
+        position += 1  # Skip over newline to point to the line start not line end and to progress the loop.
+        lineOffsets.append(position)
 
     parser = HTMLDataURLParser()
-    processed_data_size = 0
-    while data := fileobj.read(128 * 1024):
-        position = 0
-        while (position := data.find('\n', position)) >= 0:
-            position += 1  # Skip over newline to point to the line start not line end and to progress the loop.
-            lineOffsets.append(processed_data_size + position)
-        processed_data_size += len(data)
-
-        parser.feed(data)
-    file_size = processed_data_size
+    parser.feed(html_text)
+    parser.close()
 
     def to_char_offset(line_offset: LineOffset):
         return lineOffsets[line_offset.line - 1] + line_offset.offset
 
+    files: list[EmbeddedFile] = []  # with character offsets
+    for tag in parser.tags:
+        start = to_char_offset(tag.start)
+        for attribute, original_url in tag.attributes.items():
+            span = _find_tag_attribute_spans(tag.text, attribute)
+            if span[1] > span[0]:
+                files.append(EmbeddedFile(original_url=original_url, span=(start + span[0], start + span[1])))
+
+    # Search in text because sometimes it may contain further data URIs, e.g., in CSS style sheets such as:
+    # /*savepage-url=/assets/fonts/robotocondensed-regular-webfont.ttf*/url(data:application/x-font-ttf;base64,...
+    for text_start, text_end in parser.texts:
+        start = to_char_offset(text_start)
+        end = len(html_text) if text_end is None else to_char_offset(text_end)
+        files.extend(
+            EmbeddedFile(original_url=match.groupdict().get('original_url') or '', span=match.span('data_url'))
+            for regex in (DATA_URL_IN_CSS, DATA_URL_SINGLE_QUOTE, DATA_URL_DOUBLE_QUOTE)
+            for match in regex.finditer(html_text, start, end)
+        )
+
     # The TextIOWrapper, used in 'open' with text mode, is kinda insane. The arguments to 'read' are in characters.
     # However, the values to 'seek' and from 'tell' seem to be in bytes! html.parser.getpos seems to really return
     # character offsets. I.e., in order to seek to positions and keep multi-byte UTF-8 support, we need to convert
@@ -395,49 +386,19 @@ def gather_embedded_files(fileobj: IO[str]) -> list[EmbeddedFile]:
     # Avoid any seeks at all by sorting all offsets to convert and creating a dictionary.
     char_to_byte_offset = {}
     fileobj.seek(0)
-    processed_data_size = 0
-    for offset in sorted(
-        [
-            o
-            for file in parser.files
-            for o in [to_char_offset(file.start), to_char_offset(file.next) if file.next else file_size]
-        ]
-    ):
-        assert offset >= processed_data_size
-        if offset > processed_data_size:
-            data = fileobj.read(offset - processed_data_size)
-            processed_data_size += len(data)
-
-        assert offset == processed_data_size
-        if offset == processed_data_size:
-            char_to_byte_offset[offset] = fileobj.tell()
-
-    files: list[EmbeddedFile] = []
-    for file in parser.files:
-        start = char_to_byte_offset[to_char_offset(file.start)]
-        end = char_to_byte_offset[to_char_offset(file.next) if file.next else file_size]
-        if not file.attribute:
-            files.append(EmbeddedFile(original_url=file.original_url, span=(start, end)))
-            continue
-
-        fileobj.seek(start)
-        data = fileobj.read(end - start)
-        span = _find_tag_attribute_spans(data, file.attribute)
-        if span[1] <= span[0]:
-            continue
-
-        # Also convert the adjustments from character offsets to byte offsets.
-        # This also has the side effecft that it converts them from relative offsets based on 'start'
-        # to absolute offsets.
-        fileobj.seek(start)
-        fileobj.read(span[0])
-        bytes_start = fileobj.tell()
-        fileobj.read(span[1] - span[0])
-        bytes_end = fileobj.tell()
-
-        files.append(EmbeddedFile(original_url=file.original_url, span=(bytes_start, bytes_end)))
-
-    return files
+    position = 0
+    for offset in sorted({offset for file in files for offset in file.span}):
+        position += len(fileobj.read(offset - position))
+        assert offset == position
+        char_to_byte_offset[offset] = fileobj.tell()
+
+    return [
+        EmbeddedFile(
+            original_url=file.original_url,
+            span=(char_to_byte_offset[file.span[0]], char_to_byte_offset[file.span[1]]),
+        )
+        for file in files
+    ]
 
 
 class HTMLMountSource(SQLiteIndexMountSource):
@@ -454,11 +415,8 @@ class HTMLMountSource(SQLiteIndexMountSource):
 
         self.fileObjectLock = threading.Lock()
         self._close_file_object = isinstance(fileOrPath, str)
-        self.fileObject = (
-            open(fileOrPath, encoding=encoding)  # open in text mode!
-            if isinstance(fileOrPath, str)
-            else io.TextIOWrapper(fileOrPath, encoding=encoding)
-        )
+        self.encoding = encoding
+        self.fileObject: Optional[IO[bytes]] = open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else fileOrPath
 
         indexOptions = {
             'archiveFilePath': fileOrPath if isinstance(fileOrPath, str) else None,
@@ -467,11 +425,19 @@ class HTMLMountSource(SQLiteIndexMountSource):
         }
         super().__init__(**(options | indexOptions))
         self._finalize_index(
-            lambda: self.index.set_file_infos(
-                [self._convert_to_row(file) for file in gather_embedded_files(self.fileObject)]
-            )
+            lambda: self.index.set_file_infos([self._convert_to_row(file) for file in self._gather_embedded_files()])
         )
 
+    def _gather_embedded_files(self) -> list[EmbeddedFile]:
+        assert self.fileObject
+        self.fileObject.seek(0)
+        # Do not translate newlines in order to get the correct offsets and do not fail because of invalid characters.
+        wrapper = io.TextIOWrapper(self.fileObject, encoding=self.encoding, errors='surrogateescape', newline='\n')
+        try:
+            return gather_embedded_files(wrapper)
+        finally:
+            wrapper.detach()
+
     def _convert_to_row(self, file: EmbeddedFile):
         url_file = self._open_with_span(file.span[0], file.span[1])
         contents = url_file.read()
@@ -518,9 +484,12 @@ class HTMLMountSource(SQLiteIndexMountSource):
         if end <= start:
             return DataURLFile()
 
+        # The offsets and, therefore, the size are in bytes, not in characters.
         with self.fileObjectLock:
+            assert self.fileObject
             self.fileObject.seek(start)
-            return DataURLFile(self.fileObject.read(end - start))
+            data = self.fileObject.read(end - start)
+        return DataURLFile(data.decode(self.encoding, 'surrogateescape'))
 
     @overrides(SQLiteIndexMountSource)
     def open(self, fileInfo: FileInfo, buffering: int = -1) -> IO[bytes]:
@@ -536,6 +505,3 @@ class HTMLMountSource(SQLiteIndexMountSource):
                     self.fileObject = None
                     if self._close_file_object:
                         fobj.close()
-                    else:
-                        # Closing (or deleting) the wrapper would also close the file object given by the caller.
-                        fobj.detach()
-- 
2.43.0


From a9b291f00ac09861955bf30ccb9c5204c9b2b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 112/125] fix: do not mix up the positions of files opened via
 libarchive from a file object

---
 .../mountsource/formats/libarchive.py         | 67 +++++++++++++------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 32b224f..a3282b5 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -8,6 +8,7 @@ import logging
 import os
 import stat
 import sys
+import threading
 from collections.abc import Sequence
 from pathlib import Path
 from typing import IO, Callable, Optional, Union, cast
@@ -200,8 +201,12 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        fileObjectLock: Optional[threading.Lock] = None,
     ):
         self.encoding = encoding
+        # A file object might be shared by multiple archive objects and therefore each one keeps its own position.
+        self._fileObjectLock = fileObjectLock or threading.Lock()
+        self._position = 0
         self.bufferSize = bufferSize
         self._file = file
         self._entryIndex = 0  # A consecutive number to identify entries even if they have the same name.
@@ -275,25 +280,34 @@ class IterableArchive:
         if not hasattr(self._file, 'readinto'):
             return
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
+        seekable = hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell')
 
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
-            try:
-                size = self._file.readinto(self._buffer)
-            except (NotImplementedError, AttributeError):
-                result = self._file.read(self.bufferSize)
-                size = len(result)
-                self._buffer = ctypes.c_char_p(result)
+            with self._fileObjectLock:
+                if seekable:
+                    self._file.seek(self._position)
+                try:
+                    size = self._file.readinto(self._buffer)
+                except (NotImplementedError, AttributeError):
+                    result = self._file.read(self.bufferSize)
+                    size = len(result)
+                    self._buffer = ctypes.c_char_p(result)
+                self._position += size
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
 
-        if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
+        self._position = 0
+        if seekable:
 
             def seek_file_object(_archive, _context, offset, whence):
-                self._file.seek(offset, whence)
-                return self._file.tell()
+                with self._fileObjectLock:
+                    if whence == io.SEEK_CUR:
+                        self._file.seek(self._position)
+                    self._file.seek(offset, whence)
+                    self._position = self._file.tell()
+                    return self._position
 
-            self._file.seek(0)
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
@@ -343,19 +357,22 @@ class IterableArchiveCache:
     def __init__(self, cacheSize: int = 5):
         self.cacheSize = cacheSize
         self._cache: list[IterableArchive] = []
+        self._lock = threading.Lock()
 
     def insert(self, archive: IterableArchive):
-        self._cache.append(archive)
-        while len(self._cache) > self.cacheSize:
-            self._cache.pop(0)
+        with self._lock:
+            self._cache.append(archive)
+            while len(self._cache) > self.cacheSize:
+                self._cache.pop(0)
 
     def take(self, entry_index: int) -> Optional[IterableArchive]:
-        qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
-        if not qualified:
-            return None
-        # Find the archive with the closest (highest) index not larger or equal than the requested one
-        result = max(qualified, key=lambda i: self._cache[i].entry_index())
-        return self._cache.pop(result)
+        with self._lock:
+            qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
+            if not qualified:
+                return None
+            # Find the archive with the closest (highest) index not larger or equal than the requested one
+            result = max(qualified, key=lambda i: self._cache[i].entry_index())
+            return self._cache.pop(result)
 
 
 class LibarchiveFile(io.RawIOBase):
@@ -366,6 +383,7 @@ class LibarchiveFile(io.RawIOBase):
         fileSize,
         passwords: Optional[Sequence[str]] = None,
         archiveCache: Optional[IterableArchiveCache] = None,
+        fileObjectLock: Optional[threading.Lock] = None,
     ):
         io.RawIOBase.__init__(self)
         self.file = file
@@ -373,6 +391,7 @@ class LibarchiveFile(io.RawIOBase):
         self.entry_index = entry_index
         self.passwords = passwords
         self._archiveCache = archiveCache
+        self._fileObjectLock = fileObjectLock
         self._archive = None
         self._entry = None
         self._bufferSizeMax = 1024 * 1024
@@ -387,7 +406,9 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(
+                self.file, passwords=self.passwords, fileObjectLock=self._fileObjectLock
+            )
 
         while True:
             self._entry = self._archive.next_entry()
@@ -530,6 +551,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         self.passwords = options.get("passwords", [])
         self.tarFileName = tarFileName
         self._archiveCache = IterableArchiveCache()
+        self._fileObjectLock = threading.Lock()
 
         # Determine an archive file name to show for debug output and as file name inside the mount point for
         # simple non-TAR gzip/bzip2 stream-compressed files.
@@ -564,7 +586,9 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         triedToOpen = False
         fileInfos = []
         gotAnyEntry = False
-        with IterableArchive(self.fileOrPath, passwords=self.passwords) as archive:
+        with IterableArchive(
+            self.fileOrPath, passwords=self.passwords, fileObjectLock=self._fileObjectLock
+        ) as archive:
             while True:
                 entry = archive.next_entry()
                 if entry is None:
@@ -623,5 +647,6 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                 fileSize=fileInfo.size,
                 passwords=self.passwords,
                 archiveCache=self._archiveCache,
+                fileObjectLock=self._fileObjectLock,
             ),
         )
-- 
2.43.0


From e74c7368d2020e8faeeec47dafa006d27c38506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 113/125] fix: do not let concurrent reads disturb opening
 files in ZIPs

---
 core/ratarmountcore/mountsource/formats/zip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 40828c2..1679695 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -145,7 +145,9 @@ class ZipMountSource(SQLiteIndexMountSource):
         # same underlying file object concurrently by using a _SharedFile class that even includes a lock.
         # Very nice!
         # https://github.com/python/cpython/blob/a87c46eab3c306b1c5b8a072b7b30ac2c50651c0/Lib/zipfile/__init__.py#L1569
-        file = self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+        # But, opening uses relative seeks on it and therefore must not be interrupted by reads of other file objects.
+        with getattr(self.fileObject, '_lock', contextlib.nullcontext()):
+            file = self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
 
         # ZipExtFile.seek skips over stored data with a relative seek. But, in some Python versions, _SharedFile.seek
         # forwards that to the shared file object, whose position is that of the file object that was last read from.
-- 
2.43.0


From 53cfba5914ed2e609d3d35986bc909b91d70d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 114/125] fix: protect reads of SquashFS images from several
 threads with a lock as documented

---
 .../mountsource/formats/squashfs.py            | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 23a34dd..455fc7c 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -5,6 +5,7 @@ import io
 import logging
 import os
 import stat
+import threading
 import zlib
 from pathlib import Path
 from typing import IO, Any, Optional, Union
@@ -42,6 +43,12 @@ except ImportError:
         def _initialize(self):
             pass
 
+        def _read_data_block(self, start, size):
+            pass
+
+        def _read_block(self, start, expected=0):
+            pass
+
         # These are not overridden, only called:
 
         def _read_block_list(self, start, offset, blocks):
@@ -300,8 +307,19 @@ class SquashFSImage(SquashFsImage):
     @overrides(SquashFsImage)
     def __init__(self, *args, **kwargs):
         self._real_root = None
+        self._lock = threading.Lock()
         super().__init__(*args, **kwargs)  # Calls overridden _initialize
 
+    @overrides(SquashFsImage)
+    def _read_data_block(self, start, size):
+        with self._lock:
+            return super()._read_data_block(start, size)
+
+    @overrides(SquashFsImage)
+    def _read_block(self, start, *args, **kwargs):
+        with self._lock:
+            return super()._read_block(start, *args, **kwargs)
+
     @overrides(SquashFsImage)
     def _get_compressor(self, compression_id):
         if compression_id == Compression.ZLIB:
-- 
2.43.0


From b95b838cb9276314d00726b708849603d29908cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 115/125] fix: find the right password for partly encrypted
 ZIPs and do not accept wrong passwords

---
 .../ratarmountcore/mountsource/formats/zip.py | 53 +++++++++++--------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 1679695..cf7e6a0 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -104,31 +104,40 @@ class ZipMountSource(SQLiteIndexMountSource):
 
     @staticmethod
     def _find_password(fileobj: "zipfile.ZipFile", passwords: list[bytes]) -> Optional[bytes]:
-        # If headers are encrypted, then infolist will simply return an empty list!
-        files = fileobj.infolist()
-        if not files:
-            for password in passwords:
-                fileobj.setpassword(password)
-                files = fileobj.infolist()
-                if files:
-                    return password
-
-        # If headers are not encrypted, then try out passwords by trying to open the first file.
-        files = [file for file in files if not file.is_dir() and file.file_size > 0]
-        if not files:
-            return None
-
-        for password_or_none in [None, *passwords]:
-            if password_or_none:
-                fileobj.setpassword(password_or_none)
-            try:
+        files = [file for file in fileobj.infolist() if not file.is_dir()]
+        encrypted = [file for file in files if file.flag_bits & 0x1]
+        if not encrypted:
+            # Check that the compression is supported by trying to open the first file.
+            files = [file for file in files if file.file_size > 0]
+            if files:
                 with fileobj.open(files[0]) as file:
                     file.read(1)
-                return password_or_none
-            except Exception:
-                pass
+            return None
 
-        raise RuntimeError("Could not find a matching password!")
+        # The headers are not encrypted, i.e., try out passwords on files. A wrong password is accepted when opening
+        # a file with a probability of 1/256. It is only noticed with certainty after reading everything because of
+        # the checksum. Therefore, use multiple, small files.
+        encrypted = sorted(encrypted, key=lambda info: info.file_size)[:10]
+        bestPassword: Optional[bytes] = None
+        bestCount = 0
+        for password in passwords:
+            fileobj.setpassword(password)
+            count = 0
+            for info in encrypted:
+                with contextlib.suppress(Exception), fileobj.open(info) as file:
+                    while file.read(1024 * 1024):
+                        pass
+                    count += 1
+            # Not all files might have been encrypted with the same password.
+            if count > bestCount:
+                bestPassword, bestCount = password, count
+            if count == len(encrypted):
+                break
+
+        if bestPassword is None:
+            raise RuntimeError("Could not find a matching password!")
+        fileobj.setpassword(bestPassword)
+        return bestPassword
 
     @overrides(SQLiteIndexMountSource)
     def close(self) -> None:
-- 
2.43.0


From b499bf998accdc34e255b03daf88e369bf0dce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 116/125] fix: find the right password for RARs after wrong
 ones and for encrypted headers

---
 .../ratarmountcore/mountsource/formats/rar.py | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 141f40e..e0c0c4d 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -115,26 +115,23 @@ class RarMountSource(MountSource):
         if not fileobj.needs_password():
             return None
 
-        # If headers are encrypted, then infolist will simply return an empty list!
-        files = fileobj.infolist()
-        if not files:
-            for password in passwords:
-                fileobj.setpassword(password)
-                files = fileobj.infolist()
-                if files:
-                    return password
-
-        # If headers are not encrypted, then try out passwords by trying to open the first file.
-        files = [file for file in files if file.is_file()]
-        if not files:
-            return None
         for password in passwords:
-            fileobj.setpassword(password)
             try:
-                with fileobj.open(files[0]) as file:
-                    file.read(1)
+                fileobj.setpassword(password)
+                # If headers are encrypted, then infolist will simply return an empty list!
+                if not fileobj.infolist():
+                    continue
+
+                # If headers are not encrypted, then try to read the smallest file because wrong passwords might only
+                # be noticed because of the checksum, i.e., after reading everything.
+                files = [file for file in fileobj.infolist() if file.is_file() and file.needs_password()]
+                if files:
+                    info = min(files, key=lambda file: (file.file_size == 0, file.file_size))
+                    with fileobj.open(info) as file:
+                        while file.read(1024 * 1024):
+                            pass
                 return password
-            except (rarfile.PasswordRequired, rarfile.BadRarFile):
+            except (rarfile.Error, ValueError):
                 pass
 
         raise rarfile.PasswordRequired("Could not find a matching password!")
-- 
2.43.0


From 2025b203560266390c543f4b75e7ceefb151920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 117/125] fix: verify checksums of files read via libarchive

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index a3282b5..825c134 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -443,6 +443,10 @@ class LibarchiveFile(io.RawIOBase):
         readSize = self._archive.read_data(self._buffer, sizeToRead)
         if readSize != sizeToRead:
             raise RuntimeError(f"Read {readSize} bytes but expected {self.fileSize} for entry {self.entry_index}!")
+        if self._bufferOffset + sizeToRead >= self.fileSize:
+            # Libarchive only verifies checksums when trying to read past the end.
+            if self._archive.read_data(ctypes.create_string_buffer(1), 1) != 0:
+                raise RuntimeError(f"Wrong checksum or size for entry {self.entry_index}!")
         self._bufferIO = io.BytesIO(self._buffer)
 
     @overrides(io.RawIOBase)
-- 
2.43.0


From 71fd5cbf7e54dcf6d6ae46f772811e338efac708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 118/125] fix: ignore empty passwords in the libarchive backend

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 825c134..568f1bf 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -268,7 +268,8 @@ class IterableArchive:
 
     def _set_passwords(self, passwords: Sequence[Union[str, bytes]]):
         try:
-            for password in passwords:
+            # Libarchive does not accept empty passwords, e.g., from empty lines in the password file.
+            for password in filter(None, passwords):
                 laffi.read_add_passphrase(self._archive, password.encode() if isinstance(password, str) else password)
         except AttributeError as exception:
             raise NotImplementedError(
-- 
2.43.0


From 06917d97751deba50139421bd0ab4666ac753c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 119/125] fix: do not delete SQLite files that are offered as
 archive but are not valid indexes

---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 6e6bb39..820feef 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -80,7 +80,7 @@ class SQLiteIndexMountSource(MountSource):
                 self.indexFilePath = self._temporaryFile.name
 
             # Encoding is only used for set_file_infos, so we are fine not forwarding it.
-            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnly=True)
+            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnlyIndex=True)
 
         # Initialize members before using checkMetadata because it might to try to use those.
         self.archiveFilePath = self.index.archiveFilePath
-- 
2.43.0


From 166296d0d81511b3641e2b35acc33afc2f485ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 120/125] fix: do not fail format detection because of cut FAT
 images

---
 core/ratarmountcore/mountsource/formats/fat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/fat.py b/core/ratarmountcore/mountsource/formats/fat.py
index ed51860..cad6814 100644
--- a/core/ratarmountcore/mountsource/formats/fat.py
+++ b/core/ratarmountcore/mountsource/formats/fat.py
@@ -2,6 +2,7 @@ import errno
 import io
 import posixpath
 import stat
+import struct
 from collections.abc import Iterable
 from typing import IO, Optional, Union, cast
 
@@ -33,7 +34,7 @@ def is_fat_image(fileObject) -> bool:
         try:
             fs.parse_header()
             return True
-        except (PyFATException, ValueError):
+        except (PyFATException, ValueError, struct.error):
             return False
         finally:
             # Reset file object so that it does not get closed! Cannot be None because that is checked.
-- 
2.43.0


From 3b0f5f12fb96f9251ea4cfe6cb52897c871c09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 121/125] fix: interpret negative recursion depths as infinite
 as documented

---
 ratarmount/CLIHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/CLIHelpers.py b/ratarmount/CLIHelpers.py
index 5b99471..a9f616a 100644
--- a/ratarmount/CLIHelpers.py
+++ b/ratarmount/CLIHelpers.py
@@ -227,7 +227,8 @@ def parsed_args_to_options(args) -> dict[str, Any]:
         'readOnlyIndex'                : not args.recreate_index and args.recreate_index is not None,
         'recursive'                    : bool(args.recursive),
         'recursiveExtensions'          : args.recursive_extensions,
-        'recursionDepth'               : args.recursion_depth,
+        # A negative value represents infinite depth.
+        'recursionDepth'               : sys.maxsize if (args.recursion_depth or 0) < 0 else args.recursion_depth,
         'gzipSeekPointSpacing'         : int(args.gzipSeekPointSpacing),
         'mountPoint'                   : args.mount_point,
         'encoding'                     : args.encoding,
-- 
2.43.0


From 814bb20c9262ee834331fb7aeb21578f8f07586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:03 +0000
Subject: [PATCH 122/125] fix: do not fail format detection because of TARs
 with damaged sparse maps

---
 core/ratarmountcore/formats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 7a7d7db..e01d0d9 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -129,6 +129,9 @@ def is_tar(fileobj: IO[bytes], encoding: str = tarfile.ENCODING) -> bool:
             return True
     except (tarfile.ReadError, tarfile.CompressionError):
         pass
+    except (ValueError, IndexError):
+        # The tarfile module does not convert exceptions caused by damaged sparse maps and other damaged numbers.
+        pass
     return False
 
 
-- 
2.43.0


From edde0b389076edacc6fca993fbaad8aec0f53ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 123/125] fix: show all texts and images in PDFs

---
 core/ratarmountcore/mountsource/formats/pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/pdf.py b/core/ratarmountcore/mountsource/formats/pdf.py
index ca2a50f..9741535 100644
--- a/core/ratarmountcore/mountsource/formats/pdf.py
+++ b/core/ratarmountcore/mountsource/formats/pdf.py
@@ -127,8 +127,8 @@ def gather_embedded_files(reader) -> Generator[tuple[str, Any], None, None]:
     offsets = set()
     for name, reference in found_objects:
         if isinstance(reference, int):
-            if offset not in offsets:
-                offsets.add(offset)
+            if reference not in offsets:
+                offsets.add(reference)
                 yield name, reference
         else:
             # stream.indirect_reference is different from indirect_object!
-- 
2.43.0


From e200d2ba6ade63442edc49fa445f0bb30f46b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 124/125] fix: open empty attachments in PDFs

---
 core/ratarmountcore/mountsource/formats/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/pdf.py b/core/ratarmountcore/mountsource/formats/pdf.py
index 9741535..a2e8b22 100644
--- a/core/ratarmountcore/mountsource/formats/pdf.py
+++ b/core/ratarmountcore/mountsource/formats/pdf.py
@@ -222,7 +222,7 @@ class PDFMountSource(SQLiteIndexMountSource):
     def open(self, fileInfo: FileInfo, buffering: int = -1) -> IO[bytes]:
         userdata = SQLiteIndex.get_index_userdata(fileInfo.userdata)
         data = self._open_with_offset(userdata.offsetheader)
-        if not data:
+        if data is None:
             raise RatarmountError(f"Failed to find PDF object stream at offset {userdata.offsetheader}.")
         return io.BytesIO(data)
 
-- 
2.43.0


From fb8131ae4e42599041ec1e342745556a1f96ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 125/125] fix: show attachments of PDFs with larger name trees

---
 core/ratarmountcore/mountsource/formats/pdf.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/pdf.py b/core/ratarmountcore/mountsource/formats/pdf.py
index a2e8b22..cf86331 100644
--- a/core/ratarmountcore/mountsource/formats/pdf.py
+++ b/core/ratarmountcore/mountsource/formats/pdf.py
@@ -23,6 +23,21 @@ except ImportError:
     pypdf = None  # type: ignore
 
 
+def iterate_name_tree(node) -> Generator[tuple[str, Any], None, None]:
+    # Larger name trees are split into several nodes. Track the visited ones because damaged PDFs may contain cycles.
+    visited: list = []
+    nodes = [node]
+    while nodes:
+        node = nodes.pop().get_object()
+        if any(node is other for other in visited):
+            continue
+        visited.append(node)
+        if '/Names' in node:
+            yield from zip(node['/Names'][0::2], node['/Names'][1::2])
+        if '/Kids' in node:
+            nodes.extend(reversed(node['/Kids']))
+
+
 def gather_embedded_files(reader) -> Generator[tuple[str, Any], None, None]:
     # Methods:
     #   cache_get_indirect_object(
@@ -83,8 +98,7 @@ def gather_embedded_files(reader) -> Generator[tuple[str, Any], None, None]:
     #  -> Instead use: Trailer -> /Root -> /Names -> /EmbeddedFiles -> /Names
     found_objects: list[tuple[str, Any]] = []
     with contextlib.suppress(KeyError):
-        files = reader.trailer['/Root']['/Names']['/EmbeddedFiles']['/Names']
-        for name, indirect_object in zip(files[0::2], files[1::2]):
+        for name, indirect_object in iterate_name_tree(reader.trailer['/Root']['/Names']['/EmbeddedFiles']):
             # get_object: {'/Type': '/Filespec', '/F': 'test.bin', '/EF': {'/F': IndirectObject(5, 0, 12345678)}}
             # The name is also stored in indirect_object.get_object()['/F'].
             # stream is PyPDF2.generic._data_structures.DecodedStreamObject
-- 
2.43.0

