From 8fee2ff3cfe5d8d7d307799f2a3132184c79c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:13 +0000
Subject: [PATCH 001/111] fix: close the file when reading it on open fails

BinaryDataFile.Open left the file-like object open, and the path and size of
the file set, when reading the file raised an exception.
---
 dtformats/data_format.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..e0f5a1e 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -890,12 +890,19 @@ class BinaryDataFile(BinaryDataFormat):
         if self._file_object:
             raise OSError("File already opened")
 
-        self._file_size = self._file_system_helper.GetFileSizeByPath(path)
-        self._path = path
-
+        file_size = self._file_system_helper.GetFileSizeByPath(path)
         file_object = self._file_system_helper.OpenFileByPath(path)
 
-        self.ReadFileObject(file_object)
+        self._file_size = file_size
+        self._path = path
+
+        try:
+            self.ReadFileObject(file_object)
+        except BaseException:
+            file_object.close()
+            self._file_size = 0
+            self._path = None
+            raise
 
         self._file_object = file_object
         self._file_object_opened_in_object = True
-- 
2.43.0


From 368a2d0e2d35ec80e0edb8affabbd3c20eeef828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 002/111] fix: keep a data range read with a negative size
 within the range

---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From a77241c78e3f71c23a0dac5b92ce2a814785c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 003/111] fix: read the Chrome Cache index table completely or
 fail

The index table was read until the first read that did not return 4 bytes, so
a read that came up short silently dropped the remainder of the table. The
table of a previously opened file was also not cleared.
---
 dtformats/chrome_cache.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..a24ca99 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -466,6 +466,7 @@ class IndexFile(data_format.BinaryDataFile):
           output_writer (Optional[OutputWriter]): output writer.
         """
         super().__init__(debug=debug, output_writer=output_writer)
+        self._number_of_table_entries = 0
         self.creation_time = None
         self.format_version = None
         self.index_table = {}
@@ -557,6 +558,9 @@ class IndexFile(data_format.BinaryDataFile):
 
         self.creation_time = file_header.creation_time
 
+        # A table size of 0 represents the default number of table entries.
+        self._number_of_table_entries = file_header.table_size or 0x10000
+
     def _ReadLRUData(self, file_object):
         """Reads the LRU data.
 
@@ -584,10 +588,12 @@ class IndexFile(data_format.BinaryDataFile):
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("uint32le")
 
-        cache_address_index = 0
-        cache_address_data = file_object.read(4)
+        self.index_table = {}
 
-        while len(cache_address_data) == 4:
+        for cache_address_index in range(self._number_of_table_entries):
+            cache_address_data = self._ReadData(
+                file_object, file_offset, 4, "cache address"
+            )
             try:
                 value = self._ReadStructureFromByteStream(
                     cache_address_data, file_offset, data_type_map, "cache address"
@@ -609,10 +615,7 @@ class IndexFile(data_format.BinaryDataFile):
 
                 self.index_table[cache_address_index] = cache_address
 
-            file_offset = file_object.tell()
-            cache_address_data = file_object.read(4)
-
-            cache_address_index += 1
+            file_offset += 4
 
         if self._debug:
             self._DebugPrintText("\n")
-- 
2.43.0


From 622b2d72888feb654d1cfd1f554dbfa2a09d9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:23 +0000
Subject: [PATCH 004/111] fix: make Chrome Cache directory parsing work

JoinPath takes a list of path segments and the key of a cache entry is already
a decoded string, hence ParseDirectory always raised an exception.
---
 dtformats/chrome_cache.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index a24ca99..3afda6c 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -668,7 +668,9 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath(path, "index")
+        path_segments = self._file_system_helper.SplitPath(path)
+
+        index_file_path = self._file_system_helper.JoinPath(path_segments + ["index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
@@ -680,7 +682,7 @@ class ChromeCacheParser:
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    path, cache_address.filename
+                    path_segments + [cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -719,20 +721,7 @@ class ChromeCacheParser:
                     # print(f'Cache address\t: {cache_address_string:s}')
                     cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
 
-                    try:
-                        cache_entry_key = cache_entry.key.decode("ascii")
-                    except UnicodeDecodeError:
-                        logging.warning(
-                            f"Unable to decode cache entry key at cache address: "
-                            f"0x{cache_address.value:08x}. Characters that cannot be "
-                            f'decoded will be replaced with "?" or "\\ufffd".'
-                        )
-                        cache_entry_key = cache_entry.key.decode(
-                            "ascii", errors="replace"
-                        )
-
-                    # TODO: print(f'Url\t\t: {cache_entry_key:s}')
-                    _ = cache_entry_key
+                    # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
                     date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
                         microseconds=cache_entry.creation_time
-- 
2.43.0


From e83f4202f4ecd3dc95c4d7e68b3db2fa06943b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 005/111] fix: close the Chrome Cache files when parsing a
 directory fails

---
 dtformats/chrome_cache.py | 104 ++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 49 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 3afda6c..5eba095 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -678,67 +678,73 @@ class ChromeCacheParser:
         index_file.Open(index_file_path)
 
         data_block_files = {}
-        have_all_data_block_files = True
-        for cache_address in index_file.index_table.values():
-            if cache_address.filename not in data_block_files:
-                data_block_file_path = self._file_system_helper.JoinPath(
-                    path_segments + [cache_address.filename]
-                )
-                if not self._file_system_helper.CheckFileExistsByPath(
-                    data_block_file_path
-                ):
-                    logging.error(f"Missing data block file: {data_block_file_path:s}")
-                    have_all_data_block_files = False
-
-                else:
-                    data_block_file = DataBlockFile(
-                        debug=self._debug, output_writer=self._output_writer
-                    )
-                    data_block_file.Open(data_block_file_path)
-
-                    data_block_files[cache_address.filename] = data_block_file
-
-        if have_all_data_block_files:
-            # TODO: read the cache entries from the data block files
+        try:
+            have_all_data_block_files = True
             for cache_address in index_file.index_table.values():
-                cache_address_chain_length = 0
-                while cache_address.value != 0x00000000:
-                    if cache_address_chain_length >= 64:
+                if cache_address.filename not in data_block_files:
+                    data_block_file_path = self._file_system_helper.JoinPath(
+                        path_segments + [cache_address.filename]
+                    )
+                    if not self._file_system_helper.CheckFileExistsByPath(
+                        data_block_file_path
+                    ):
                         logging.error(
-                            "Maximum allowed cache address chain length reached."
+                            f"Missing data block file: {data_block_file_path:s}"
                         )
-                        break
+                        have_all_data_block_files = False
 
-                    data_file = data_block_files.get(cache_address.filename)
-                    if not data_file:
-                        logging.warning(
-                            f"Cache address: 0x{cache_address.value:08x} missing "
-                            f"filename."
+                    else:
+                        data_block_file = DataBlockFile(
+                            debug=self._debug, output_writer=self._output_writer
+                        )
+                        data_block_file.Open(data_block_file_path)
+
+                        data_block_files[cache_address.filename] = data_block_file
+
+            if have_all_data_block_files:
+                # TODO: read the cache entries from the data block files
+                for cache_address in index_file.index_table.values():
+                    cache_address_chain_length = 0
+                    while cache_address.value != 0x00000000:
+                        if cache_address_chain_length >= 64:
+                            logging.error(
+                                "Maximum allowed cache address chain length reached."
+                            )
+                            break
+
+                        data_file = data_block_files.get(cache_address.filename)
+                        if not data_file:
+                            logging.warning(
+                                f"Cache address: 0x{cache_address.value:08x} missing "
+                                f"filename."
+                            )
+                            break
+
+                        # cache_address_string = cache_address.GetDebugString()
+                        # print(f'Cache address\t: {cache_address_string:s}')
+                        cache_entry = data_file.ReadCacheEntry(
+                            cache_address.block_offset
                         )
-                        break
-
-                    # cache_address_string = cache_address.GetDebugString()
-                    # print(f'Cache address\t: {cache_address_string:s}')
-                    cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
 
-                    # TODO: print(f'Url\t\t: {cache_entry.key:s}')
+                        # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
-                    date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-                        microseconds=cache_entry.creation_time
-                    )
-                    # print(f"Creation time\t: {date_string!s}")
+                        date_string = datetime.datetime(
+                            1601, 1, 1
+                        ) + datetime.timedelta(microseconds=cache_entry.creation_time)
+                        # print(f"Creation time\t: {date_string!s}")
 
-                    # print("")
+                        # print("")
 
-                    print(f"{date_string!s}\t{cache_entry.key:s}")
+                        print(f"{date_string!s}\t{cache_entry.key:s}")
 
-                    cache_address = cache_entry.next
-                    cache_address_chain_length += 1
+                        cache_address = cache_entry.next
+                        cache_address_chain_length += 1
 
-        for data_block_file in data_block_files.values():
-            data_block_file.Close()
+        finally:
+            for data_block_file in data_block_files.values():
+                data_block_file.Close()
 
-        index_file.Close()
+            index_file.Close()
 
         if not have_all_data_block_files:
             raise errors.ParseError("Missing data block files.")
-- 
2.43.0


From 3c67c7c9ec3dc5c27198c0302d4e8ca284df523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 006/111] fix: report incomplete or undecodable CPIO path data
 as a parse error

The signature, path and alignment padding were read without checking how much
data was read, so a read that came up short resulted in a file entry with a
truncated path.
---
 dtformats/cpio.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..e28f59b 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -1,7 +1,5 @@
 """Copy in and out (CPIO) archive format files."""
 
-import os
-
 from dtformats import data_format
 from dtformats import data_range
 from dtformats import errors
@@ -239,7 +237,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-        path_data = file_object.read(file_entry.path_size)
+        path_data = self._ReadData(
+            file_object, file_offset, file_entry.path_size, "path"
+        )
 
         if self._debug:
             self._DebugPrintData("Path data", path_data)
@@ -247,7 +247,11 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         file_offset += file_entry.path_size
 
         # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        try:
+            path = path_data.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(f"Unable to decode path with error: {exception!s}")
+
         path, _, _ = path.partition("\x00")
 
         if self._debug:
@@ -267,7 +271,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 padding_size = 4 - padding_size
 
         if self._debug:
-            padding_data = file_object.read(padding_size)
+            padding_data = self._ReadData(
+                file_object, file_offset, padding_size, "path alignment padding"
+            )
             self._DebugPrintData("Path alignment padding", padding_data)
 
         file_offset += padding_size
@@ -306,9 +312,12 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
 
         if padding_size > 0:
             if self._debug:
-                file_object.seek(file_offset, os.SEEK_SET)
-                padding_data = file_object.read(padding_size)
-
+                padding_data = self._ReadData(
+                    file_object,
+                    file_offset,
+                    padding_size,
+                    "file data alignment padding",
+                )
                 self._DebugPrintData("File data alignment padding", padding_data)
 
             archive_file_entry.size += padding_size
@@ -397,8 +406,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the format signature is not supported.
         """
-        file_object.seek(0, os.SEEK_SET)
-        signature_data = file_object.read(6)
+        signature_data = self._ReadData(file_object, 0, 6, "signature")
 
         self.file_format = None
         if len(signature_data) > 2:
-- 
2.43.0


From dec1ad383e4229d8d5a4c007e970bb5dcf1ba8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 007/111] fix: return None for a missing CPIO file entry of an
 empty archive

---
 dtformats/cpio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index e28f59b..eb1d474 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -393,7 +393,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
           CPIOArchiveFileEntry: CPIO archive file entry or None.
         """
         if not self._file_entries:
-            return False
+            return None
 
         return self._file_entries.get(path)
 
-- 
2.43.0


From 4486decec814f4b1ecf390561f5583f9785206a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:49 +0000
Subject: [PATCH 008/111] fix: read GZip member data up to the end of the
 deflate stream

The end of the compressed data was assumed where a read returned no data or
where no data was decompressed, so an empty member was misread and a truncated
member was not reported as such.
---
 dtformats/gzipfile.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..54e5479 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -45,36 +45,34 @@ class GZipFile(data_format.BinaryDataFile):
         Returns:
           tuple[bytes, bytes]: decompressed data and remaining data.
         """
-        data_segments = []
-        while compressed_data:
-            data = zlib_decompressor.decompress(compressed_data)
-            if not data:
-                break
+        data = zlib_decompressor.decompress(compressed_data)
 
-            data_segments.append(data)
-            compressed_data = getattr(zlib_decompressor, "unused_data", b"")
-
-        return b"".join(data_segments), compressed_data
+        return data, zlib_decompressor.unused_data
 
     def _ReadMemberCompressedData(self, file_object):
         """Reads a member compressed data.
 
         Args:
           file_object (file): file-like object.
+
+        Raises:
+          ParseError: if the compressed data cannot be read.
         """
         zlib_decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
-        compressed_data = file_object.read(self._BUFFER_SIZE)
-        while compressed_data:
-            data, compressed_data = self._ReadCompressedData(
-                zlib_decompressor, compressed_data
-            )
-            if compressed_data:
-                file_object.seek(-len(compressed_data), os.SEEK_CUR)
-
-            if not data:
-                break
-
+        while not zlib_decompressor.eof:
             compressed_data = file_object.read(self._BUFFER_SIZE)
+            if not compressed_data:
+                raise errors.ParseError("Missing member compressed data")
+
+            try:
+                self._ReadCompressedData(zlib_decompressor, compressed_data)
+            except zlib.error as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress member data with error: {exception!s}"
+                )
+
+        if zlib_decompressor.unused_data:
+            file_object.seek(-len(zlib_decompressor.unused_data), os.SEEK_CUR)
 
     def _ReadMemberFooter(self, file_object):
         """Reads a member footer.
@@ -162,7 +160,8 @@ class GZipFile(data_format.BinaryDataFile):
                 self._DebugPrintValue("Comment", value_string)
 
         if member_header.flags & self._FLAG_FHCRC:
-            file_object.read(2)
+            file_offset = file_object.tell()
+            self._ReadData(file_object, file_offset, 2, "header checksum")
 
     def ReadFileObject(self, file_object):
         """Reads a GZip file-like object.
-- 
2.43.0


From c3e6d876115041a9b0225e81bfc29b636d984c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 009/111] fix: report incomplete jump list trailing data as a
 parse error

---
 dtformats/jump_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..4c3f1c5 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -517,5 +517,7 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
             file_offset += 4
 
         if self._debug and file_offset < self._file_size:
-            trailing_data = file_object.read(self._file_size - file_offset)
+            trailing_data = self._ReadData(
+                file_object, file_offset, self._file_size - file_offset, "trailing data"
+            )
             self._DebugPrintData("Trailing data", trailing_data)
-- 
2.43.0


From 33d4bb7d1e09925c9a6f2add5d502ff3bf8df487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:19 +0000
Subject: [PATCH 010/111] fix: report incomplete keychain record data as a
 parse error

---
 dtformats/keychain.py | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..c64909b 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -419,7 +419,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
-            record_data = file_object.read(record_data_size - record_data_offset)
+            record_data = self._ReadData(
+                file_object,
+                file_offset,
+                record_data_size - record_data_offset,
+                "record data",
+            )
 
             if self._debug:
                 if record_header.key_data_size > 0:
@@ -504,7 +509,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         offsets_data_size = number_of_attribute_values * 4
 
-        offsets_data = file_object.read(offsets_data_size)
+        offsets_data = self._ReadData(
+            file_object,
+            file_offset,
+            offsets_data_size,
+            "record attribute value offsets",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute value offsets data", offsets_data)
@@ -583,7 +593,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
-        attribute_values_data = file_object.read(attribute_values_data_size)
+        attribute_values_data = self._ReadData(
+            file_object,
+            file_offset,
+            attribute_values_data_size,
+            "record attribute values",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute values data", attribute_values_data)
@@ -751,7 +766,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             if trailing_data_size == 0:
                 self._DebugPrintText("\n")
             else:
-                trailing_data = file_object.read(trailing_data_size)
+                trailing_data = self._ReadData(
+                    file_object,
+                    file_offset,
+                    trailing_data_size,
+                    "record trailing data",
+                )
                 self._DebugPrintData("Record trailing data", trailing_data)
 
         if record_values.relation_identifier not in tables:
@@ -824,7 +844,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             if trailing_data_size == 0:
                 self._DebugPrintText("\n")
             else:
-                trailing_data = file_object.read(trailing_data_size)
+                trailing_data = self._ReadData(
+                    file_object,
+                    file_offset,
+                    trailing_data_size,
+                    "record trailing data",
+                )
                 self._DebugPrintData("Record trailing data", trailing_data)
 
         table = KeychainDatabaseTable()
@@ -886,7 +911,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
 
             if trailing_data_size != 0:
-                trailing_data = file_object.read(trailing_data_size)
+                trailing_data = self._ReadData(
+                    file_object, file_offset, trailing_data_size, "table trailing data"
+                )
                 self._DebugPrintData("Table trailing data", trailing_data)
 
     def _ReadTableHeader(self, file_object, table_header_offset):
-- 
2.43.0


From 8a33366e6a223d8600c6ec5211b5e0b5a6a6bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 011/111] fix: print the keychain offsets instead of a tuple

---
 dtformats/keychain.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index c64909b..b996880 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -140,7 +140,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, record_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(record_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(
+                record_offset
+            )
             line = self._FormatValue(f"Record offset: {index:d}", value_string)
             lines.append(line)
 
@@ -183,7 +185,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(
+                table_offset
+            )
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
@@ -535,7 +539,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(
+                    attribute_value_offset
+                )
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
-- 
2.43.0


From 50acb190fe8919ef04df793efd1d1367bb899b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 012/111] fix: report incomplete restore point change log
 record data as a parse error

---
 dtformats/rp_change_log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..d215e75 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,8 +210,10 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
         file_offset += data_size
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "change log entry record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
@@ -335,7 +337,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "file header record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From 77324bb05d0be726ebc3dd58cbaeb7225d334440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 013/111] fix: report incomplete rp.log data as a parse error
 and only print it when debugging

---
 dtformats/rp_log.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cdd19..7ec5c94 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -119,8 +119,10 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         """
         self._ReadFileHeader(file_object)
 
-        data_size = (self._file_size - 8) - file_object.tell()
-        data = file_object.read(data_size)
-        self._DebugPrintData("Unknown1", data)
+        file_offset = file_object.tell()
+        data_size = (self._file_size - 8) - file_offset
+        data = self._ReadData(file_object, file_offset, data_size, "unknown1")
+        if self._debug:
+            self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From 630b6927b0a2240e81cb21c50edf87e1e2f1be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 014/111] fix: report incomplete binary cookies page sizes as a
 parse error

---
 dtformats/safari_cookies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..eef30d3 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -137,7 +137,9 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         # TODO: check for upper limit.
         page_sizes_data_size = file_header.number_of_pages * 4
 
-        page_sizes_data = file_object.read(page_sizes_data_size)
+        page_sizes_data = self._ReadData(
+            file_object, file_offset, page_sizes_data_size, "page sizes"
+        )
 
         if self._debug:
             self._DebugPrintData("Page sizes data", page_sizes_data)
-- 
2.43.0


From 2c03e9982bf90d005d080d9030ad949290ebb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 015/111] fix: report an incomplete TZif time zone string as a
 parse error

---
 dtformats/tzif.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9532327..a367b3f 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -410,7 +410,13 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         if self.format_version in (0x32, 0x33):
             self._ReadTimeZoneInformation64bit(file_object)
 
-            data = file_object.read()
+            file_offset = file_object.tell()
+            data = self._ReadData(
+                file_object,
+                file_offset,
+                self._file_size - file_offset,
+                "time zone string",
+            )
 
             if self._debug:
                 self._DebugPrintData("Time zone string", data)
-- 
2.43.0


From 40e9470c5c9a7126dd360c9fb258475ac032fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 016/111] fix: read the 64-bit TZif header after the 32-bit
 time zone information

---
 dtformats/tzif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index a367b3f..16b6153 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -108,10 +108,11 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file header cannot be read.
         """
+        file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_file_header")
 
         file_header, _ = self._ReadStructureFromFileObject(
-            file_object, 0, data_type_map, "file header"
+            file_object, file_offset, data_type_map, "file header"
         )
 
         if self._debug:
-- 
2.43.0


From c1cd1d638951fcead6c0dafbef0ad25073f3ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 017/111] fix: read every block of USN change journal records

After an empty record header the reader advanced its offset to the next block
but not the file-like object, and the size of the last block was not limited to
the remaining data. Reading also relied on the position of the file-like object
not changing in between records.
---
 dtformats/usn_journal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/usn_journal.py b/dtformats/usn_journal.py
index bbd2345..2902167 100644
--- a/dtformats/usn_journal.py
+++ b/dtformats/usn_journal.py
@@ -64,18 +64,18 @@ class USNRecords(data_format.BinaryDataFile):
         Raises:
           ParseError: if a record cannot be read.
         """
-        self._file_object.seek(0, os.SEEK_SET)
-
         file_offset = 0
         while file_offset < self._file_size:
-            block_size = min(4096, self._file_size)
+            block_size = min(4096, self._file_size - file_offset)
 
             while block_size > 60:
-                usn_record_header = self._file_object.read(60)
+                usn_record_header = self._ReadData(
+                    self._file_object, file_offset, 60, "USN record header"
+                )
                 if usn_record_header == self._EMPTY_USN_RECORD_HEADER:
                     break
 
-                self._file_object.seek(-60, os.SEEK_CUR)
+                self._file_object.seek(file_offset, os.SEEK_SET)
                 usn_record, data_size = self._ReadRecordV2(self._file_object)
                 yield usn_record
 
-- 
2.43.0


From 24ef9822d2261f4daa7afa9cbf4aacc4522d0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 018/111] fix: report incomplete tracev3 catalog and chunk set
 data as a parse error

---
 dtformats/unified_logging.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..41f3ff5 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3533,6 +3533,8 @@ class TraceV3File(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("tracev3_catalog")
 
+        catalog_offset = file_offset
+
         catalog, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "Catalog"
         )
@@ -3567,8 +3569,12 @@ class TraceV3File(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tracev3_catalog_sub_chunk")
 
         if self._debug:
-            file_object.seek(file_offset, os.SEEK_SET)
-            sub_chunks_data = file_object.read(chunk_data_size - bytes_read)
+            sub_chunks_data = self._ReadData(
+                file_object,
+                file_offset,
+                chunk_data_size - (file_offset - catalog_offset),
+                "Catalog sub chunks",
+            )
             self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
 
         for _ in range(catalog.number_of_sub_chunks):
@@ -3631,7 +3637,9 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the chunk header cannot be read.
         """
-        chunk_data = file_object.read(chunk_header.chunk_data_size)
+        chunk_data = self._ReadData(
+            file_object, file_offset, chunk_header.chunk_data_size, "Chunk set"
+        )
 
         data_type_map = self._GetDataTypeMap("tracev3_lz4_block_header")
 
-- 
2.43.0


From 5aa95fdf34b1efb8b7e04c51b4317b53316d5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:18 +0000
Subject: [PATCH 019/111] fix: report tracev3 data that cannot be decompressed
 as a parse error

---
 dtformats/unified_logging.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 41f3ff5..1797719 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3653,10 +3653,15 @@ class TraceV3File(data_format.BinaryDataFile):
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
-            uncompressed_data = lz4.block.decompress(
-                chunk_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    chunk_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                )
+            except lz4.block.LZ4BlockError as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
-- 
2.43.0


From 93250b7ae31907e0459ddb6c1fa22d7550ce0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 020/111] fix: read a tracev3 firehose chunk without
 tracepoints that have private data

The private data was only set for certain types of tracepoints, a chunk with
only other types of tracepoints raised an UnboundLocalError.
---
 dtformats/unified_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1797719..dfad6ba 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3954,6 +3954,8 @@ class TraceV3File(data_format.BinaryDataFile):
                     f"catalog"
                 )
 
+        private_data = b""
+
         chunk_data_offset = 32
         while chunk_data_offset < firehose_header.public_data_size:
             if self._debug:
-- 
2.43.0


From 8891d3b75fa8b92fe12af00898f67b0102c1a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 021/111] fix: do not read the same timesync record forever
 when its size is too small

---
 dtformats/unified_logging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index dfad6ba..8a57a8a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2391,7 +2391,12 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         file_offset = 0
 
         while file_offset < self._file_size:
-            record, _ = self._ReadRecord(self._file_object, file_offset)
+            record, bytes_read = self._ReadRecord(self._file_object, file_offset)
+            if record.record_size < bytes_read:
+                raise errors.ParseError(
+                    f"Unsupported record size: {record.record_size:d}."
+                )
+
             yield record
 
             file_offset += record.record_size
-- 
2.43.0


From 44443aa6e4fddae240541f5fb6c56d078cf2168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 022/111] fix: close the timesync files read by a tracev3 file

---
 dtformats/unified_logging.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 8a57a8a..9a11f86 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4895,18 +4895,23 @@ class TraceV3File(data_format.BinaryDataFile):
                 continue
 
             timesync_file = self._OpenTimesyncDatabaseFile(directory_entry)
+            if not timesync_file:
+                continue
 
-            for record in timesync_file.ReadRecords():
-                record_boot_identifier = getattr(record, "boot_identifier", None)
+            try:
+                for record in timesync_file.ReadRecords():
+                    record_boot_identifier = getattr(record, "boot_identifier", None)
 
-                if self._timesync_boot_record:
-                    if record_boot_identifier:
-                        break
+                    if self._timesync_boot_record:
+                        if record_boot_identifier:
+                            break
 
-                    self._timesync_sync_records.append(record)
+                        self._timesync_sync_records.append(record)
 
-                elif record_boot_identifier == boot_identifier:
-                    self._timesync_boot_record = record
+                    elif record_boot_identifier == boot_identifier:
+                        self._timesync_boot_record = record
+            finally:
+                timesync_file.Close()
 
         if self._timesync_boot_record:
             self._timesync_timebase = (
-- 
2.43.0


From b75e09e91544ca09e3d1beab24591fe2f86e6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 023/111] fix: read the timesync files in a fixed order

The boot record that is used must not depend on the order in which the file
system lists the files.
---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 9a11f86..c554395 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4884,8 +4884,8 @@ class TraceV3File(data_format.BinaryDataFile):
         if not self._timesync_path:
             return
 
-        for directory_entry in self._file_system_helper.ListDirectory(
-            self._timesync_path
+        for directory_entry in sorted(
+            self._file_system_helper.ListDirectory(self._timesync_path)
         ):
             if self._timesync_boot_record:
                 break
-- 
2.43.0


From 29d78aa3bad156712854db37615cf56e505043ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:42 +0000
Subject: [PATCH 024/111] fix: do not reuse cached tracev3 image values of a
 different tracepoint

The cache was only keyed on the strings file and string reference, so the values
of a tracepoint with a dynamic format string, another load address or other
large offset data were used for one without and vice versa.
---
 dtformats/unified_logging.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index c554395..13083b4 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3202,13 +3202,25 @@ class TraceV3File(data_format.BinaryDataFile):
 
         uuid_string = strings_file_identifier.hex.upper()
 
-        lookup_key = f"{uuid_string:s}:0x{string_reference:x}"
+        large_offset_data = (
+            getattr(tracepoint_data_object, "large_offset_data", None) or 0
+        )
+        large_shared_cache_data = getattr(
+            tracepoint_data_object, "large_shared_cache_data", None
+        )
+
+        # The lookup key must contain every value that determines the image values.
+        lookup_key = (
+            strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES,
+            uuid_string,
+            string_reference,
+            is_dynamic,
+            image_text_offset,
+            large_offset_data,
+            large_shared_cache_data,
+        )
         image_values = self._cached_image_values.get(lookup_key)
         if not image_values:
-            large_offset_data = (
-                getattr(tracepoint_data_object, "large_offset_data", None) or 0
-            )
-
             if strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES:
                 image_values = ImageValues(
                     identifier=strings_file_identifier, text_offset=image_text_offset
@@ -3236,9 +3248,6 @@ class TraceV3File(data_format.BinaryDataFile):
                         text_offset=image_text_offset,
                     )
 
-                large_shared_cache_data = getattr(
-                    tracepoint_data_object, "large_shared_cache_data", None
-                )
                 if large_offset_data and large_shared_cache_data:
                     calculated_large_offset_data = large_shared_cache_data >> 1
                     if large_offset_data != calculated_large_offset_data:
-- 
2.43.0


From 0d48dfa189853f733b1faafce57a9831eb2a246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 025/111] fix: do not use files and values of a previously
 opened tracev3 file

On close the cached uuidtext and DSC files were closed but remained in use, and
the paths and timesync values of the previous file were used when the next file
has none.
---
 dtformats/unified_logging.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 13083b4..e121de8 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4948,6 +4948,10 @@ class TraceV3File(data_format.BinaryDataFile):
             if uuidtext_file:
                 uuidtext_file.Close()
 
+        self._cached_dsc_files.clear()
+        self._cached_image_values.clear()
+        self._cached_uuidtext_files.clear()
+
         super().Close()
 
     def ReadFileObject(self, file_object):
@@ -4964,6 +4968,14 @@ class TraceV3File(data_format.BinaryDataFile):
         # * in ../ for *.logarchive/logdata.LiveData.tracev3
         # * in ../../ for .logarchive/*/*.tracev3
         # * in ../../uuidtext/ for /private/var/db/diagnostics/*/*.tracev3
+        self._catalog = None
+        self._catalog_process_information_entries = {}
+        self._catalog_strings_map = {}
+        self._sorted_timesync_sync_records = []
+        self._timesync_path = None
+        self._timesync_timebase = 1.0
+        self._uuidtext_path = None
+
         path_segments = self._file_system_helper.SplitPath(self._path)
 
         # Remove the filename from the path.
-- 
2.43.0


From 2934d31fa30c28cbb267a457f84432a1fc092fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:09 +0000
Subject: [PATCH 026/111] fix: read the tracev3 log entries from the first
 chunk

Reading the log entries started at the position the file-like object happened
to be at, hence reading them a second time returned no log entries.
---
 dtformats/unified_logging.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index e121de8..e4441f7 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3,7 +3,6 @@
 import abc
 import base64
 import collections
-import os
 import re
 import struct
 import uuid
@@ -2632,6 +2631,7 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_strings_map = {}
         self._chunk_index = 0
         self._error_on_warning = error_on_warning
+        self._first_chunk_offset = 0
         self._header_timebase = 1.0
         self._header_timestamp = 0
         self._sorted_timesync_sync_records = []
@@ -5041,7 +5041,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_offset += alignment
 
-        file_object.seek(file_offset, os.SEEK_SET)
+        self._first_chunk_offset = file_offset
 
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = (
@@ -5100,7 +5100,11 @@ class TraceV3File(data_format.BinaryDataFile):
 
             yield log_entry
 
-        file_offset = self._file_object.tell()
+        file_offset = self._first_chunk_offset
+
+        self._catalog = None
+        self._catalog_process_information_entries = {}
+        self._catalog_strings_map = {}
 
         oversize_chunks = {}
 
-- 
2.43.0


From 846f68067d5d988b91f9b9d42c79da51949bb93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:18 +0000
Subject: [PATCH 027/111] fix: do not skip a Firefox cache entry that cannot be
 read

A failure to read a cache entry was handled as if the block did not contain
a cache entry, so the cache entry was silently dropped.
---
 dtformats/firefox_cache1.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/dtformats/firefox_cache1.py b/dtformats/firefox_cache1.py
index 896ee05..c45b0f0 100644
--- a/dtformats/firefox_cache1.py
+++ b/dtformats/firefox_cache1.py
@@ -133,6 +133,8 @@ class CacheBlockFile(data_format.BinaryDataFile):
         },
     )
 
+    _ENTRY_HEADER_SIZE = 36
+
     def __init__(self, debug=False, output_writer=None):
         """Initializes a Firefox cache map file.
 
@@ -176,11 +178,34 @@ class CacheBlockFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("firefox_cache1_entry")
 
-        try:
-            cache_entry, cache_entry_data_size = self._ReadStructureFromFileObject(
-                file_object, file_offset, data_type_map, "cache_entry"
+        # Note that a block that does not contain the start of a cache entry can
+        # contain arbitrary data.
+        cache_entry = None
+        cache_entry_data_size = self._ENTRY_HEADER_SIZE
+
+        remaining_data_size = self._file_size - file_offset
+        if cache_entry_data_size <= remaining_data_size:
+            data = self._ReadData(
+                file_object, file_offset, cache_entry_data_size, "cache entry header"
+            )
+            cache_entry_data_size += int.from_bytes(data[28:32], "big")
+            cache_entry_data_size += int.from_bytes(data[32:36], "big")
+
+        if cache_entry_data_size <= remaining_data_size:
+            data = self._ReadData(
+                file_object, file_offset, cache_entry_data_size, "cache entry"
             )
-        except errors.ParseError:
+            if self._debug:
+                self._DebugPrintData("Cache entry data", data)
+
+            try:
+                cache_entry = self._ReadStructureFromByteStream(
+                    data, file_offset, data_type_map, "cache entry"
+                )
+            except errors.ParseError:
+                pass
+
+        if not cache_entry:
             file_object.seek(file_offset + self._block_size, os.SEEK_SET)
             return
 
-- 
2.43.0


From 8c2161f2c9b62efb989842ca1e428ece17ba846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:39 +0000
Subject: [PATCH 028/111] fix: report a fseventsd file of which no gzip member
 can be read as a parse error

---
 dtformats/fseventsd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index 079f414..cdb7a4f 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -3,6 +3,7 @@
 import pygzipf
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class FseventsFile(data_format.BinaryDataFile):
@@ -109,6 +110,9 @@ class FseventsFile(data_format.BinaryDataFile):
             file_offset = 0
             file_size = gzipf_file.get_uncompressed_data_size()
 
+            if not gzipf_file.get_number_of_members():
+                raise errors.ParseError("Missing gzip member.")
+
             while file_offset < file_size:
                 page_header, bytes_read = self._ReadDLSPageHeader(
                     gzipf_file, file_offset
-- 
2.43.0


From 31a46122f5e11f07c8c75fe0503e052100631c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 029/111] fix: determine the size of the EMF and WMF record
 data from the record header

The size of the record header was handled as the offset of the record data, so
the record data included the remainder of the file and a record size of 0
resulted in an endless loop. Data that came up short was not reported.
---
 dtformats/wemf.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..dab51ab 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -151,14 +151,20 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        if record_header.record_size < bytes_read:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
+
+        data_offset = file_offset + bytes_read
+        data_size = record_header.record_size - bytes_read
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
@@ -178,7 +184,10 @@ class EMFFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the record data cannot be read.
         """
-        record_data = file_object.read(data_size)
+        file_offset = file_object.tell()
+        record_data = self._ReadData(
+            file_object, file_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -704,7 +713,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -712,8 +721,11 @@ class WMFFile(data_format.BinaryDataFile):
             self._DebugPrintRecordHeader(record_header)
 
         record_size = record_header.record_size * 2
+        if record_size < bytes_read:
+            raise errors.ParseError(f"Unsupported record size: {record_size:d}")
 
-        data_size = record_size - (data_offset - file_offset)
+        data_offset = file_offset + bytes_read
+        data_size = record_size - bytes_read
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
@@ -731,7 +743,10 @@ class WMFFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the record cannot be read.
         """
-        record_data = file_object.read(data_size)
+        file_offset = file_object.tell()
+        record_data = self._ReadData(
+            file_object, file_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -823,13 +838,8 @@ class WMFFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        try:
-            signature = file_object.read(4)
-            file_object.seek(-4, os.SEEK_CUR)
-        except OSError as exception:
-            raise errors.ParseError(
-                f"Unable to read file signature with error: {exception!s}"
-            )
+        signature = self._ReadData(file_object, 0, 4, "file signature")
+        file_object.seek(0, os.SEEK_SET)
 
         if signature == self._WMF_PLACEABLE_SIGNATURE:
             self._ReadPlaceable(file_object)
-- 
2.43.0


From 179dd219897867862ef6c87028dde7ccc868964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:35 +0000
Subject: [PATCH 030/111] fix: print CIM repository page numbers and offsets
 when debugging

---
 dtformats/wmi_repository.py | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 576b057..2f7b124 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -344,13 +344,13 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             self._DebugPrintDecimalValue(f"Unknown2: {index:d}", value)
 
         for index, page_number in enumerate(page_body.sub_pages):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(
                 f"Sub page: {index:d} mapped page number", value_string
             )
 
         for index, key_offset in enumerate(page_body.key_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(key_offset)
+            value_string = self._FormatIntegerAsOffset(key_offset)
             self._DebugPrintValue(f"Key: {index:d} offset", value_string)
 
         number_of_bytes = page_body.key_data_size * 2
@@ -362,7 +362,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         self._DebugPrintDecimalValue("Number of values", page_body.number_of_values)
 
         for index, offset in enumerate(page_body.value_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(offset)
+            value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
         number_of_bytes = page_body.value_data_size * 2
@@ -532,7 +532,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             page_key_offset = key_offset * 2
 
             if self._debug:
-                value_string, _ = self._FormatIntegerAsOffset(page_key_offset)
+                value_string = self._FormatIntegerAsOffset(page_key_offset)
                 self._DebugPrintValue(
                     f"Page key: {page_key_index:d} offset", value_string
                 )
@@ -697,7 +697,7 @@ class MappingFile(data_format.BinaryDataFile):
             "  Number of entries", unknown_table.number_of_entries
         )
         for index, page_number in enumerate(unknown_table.entries):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(f"  Entry: {index:d} page number", value_string)
 
         self._DebugPrintText("\n")
@@ -1697,10 +1697,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "node cell"
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(file_offset)
+            value_string = self._FormatIntegerAsOffset(file_offset)
             self._DebugPrintValue("Node cell offset", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(file_offset + 4)
+            value_string = self._FormatIntegerAsOffset(file_offset + 4)
             self._DebugPrintValue("Data offset", value_string)
 
             if cell_number is not None:
@@ -2307,18 +2307,18 @@ class ClassDefinition(CIMObject):
         """
         lines = []
         for index, property_descriptor in enumerate(array_of_property_descriptors):
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} name offset", value_string
             )
             lines.append(line)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} definition offset", value_string
             )
             lines.append(line)
@@ -2679,7 +2679,7 @@ class ClassDefinition(CIMObject):
             )
             self._DebugPrintValue("        Index", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 class_definition_property.value_data_offset
             )
             self._DebugPrintValue("        Value data offset", value_string)
@@ -3116,7 +3116,7 @@ class Instance(CIMObject):
             "unknown offset",
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(unknown_offset)
+            value_string = self._FormatIntegerAsOffset(unknown_offset)
             self._DebugPrintValue("Unknown offset", value_string)
 
         data_offset += 4
@@ -3492,7 +3492,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob, _ = self._FormatFilenameAsGlob(
+            filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
             path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
@@ -3851,7 +3851,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("index.btr")
+        filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3880,7 +3880,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob(filename)
+        filename_as_glob = self._FormatFilenameAsGlob(filename)
         mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
 
         mapping_file_path = glob.glob(mapping_file_glob)
@@ -3904,7 +3904,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("mapping.ver")
+        filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3925,7 +3925,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("objects.data")
+        filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3953,7 +3953,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("cim.rep")
+        filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
-- 
2.43.0


From d9868757e227e1bb78aadc779f9a145b93772e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:00 +0000
Subject: [PATCH 031/111] fix: report CIM repository data that cannot be read
 as a parse error

---
 dtformats/wmi_repository.py | 56 ++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2f7b124..8e7df99 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -789,6 +789,29 @@ class MappingFile(data_format.BinaryDataFile):
 
         return file_header
 
+    def _HasFileHeader(self, file_object, file_offset):
+        """Determines if there is a format version 1 file header.
+
+        Args:
+          file_object (file): file-like object.
+          file_offset (int): offset of the file header relative to the start of
+              the file.
+
+        Returns:
+          bool: True if there is a file header.
+
+        Raises:
+          ParseError: if the data cannot be read.
+        """
+        # The size of a format version 1 file header.
+        if self._file_size - file_offset < 12:
+            return False
+
+        signature = self._ReadData(file_object, file_offset, 4, "signature")
+        file_object.seek(file_offset, os.SEEK_SET)
+
+        return signature == b"\xcd\xab\x00\x00"
+
     def _ReadMappingTable(self, file_object):
         """Reads the mapping tables.
 
@@ -865,6 +888,8 @@ class MappingFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._mapping_table2 = None
+
         self._ReadDetermineFormatVersion(file_object)
 
         file_object.seek(0, os.SEEK_SET)
@@ -881,23 +906,14 @@ class MappingFile(data_format.BinaryDataFile):
 
         file_offset = file_object.tell()
 
-        if self.format_version == 2 or file_offset < self._file_size:
-            try:
-                file_header = self._ReadFileHeader(
-                    file_object, format_version=self.format_version
-                )
-            except errors.ParseError:
-                file_header = None
-
-            if not file_header and self.format_version == 2:
-                raise errors.ParseError("Unable to read second file header.")
+        # Seen trailing data in Windows XP objects.map file.
+        if self.format_version == 2 or self._HasFileHeader(file_object, file_offset):
+            self._ReadFileHeader(file_object, format_version=self.format_version)
 
-            # Seen trailing data in Windows XP objects.map file.
-            if file_header:
-                self._mapping_table2 = self._ReadMappingTable(file_object)
+            self._mapping_table2 = self._ReadMappingTable(file_object)
 
-                self._ReadUnknownTable(file_object)
-                self._ReadFileFooter(file_object)
+            self._ReadUnknownTable(file_object)
+            self._ReadFileFooter(file_object)
 
 
 class ObjectsDataFile(data_format.BinaryDataFile):
@@ -937,7 +953,9 @@ class ObjectsDataFile(data_format.BinaryDataFile):
                 f"(0x{file_offset:08x})\n"
             )
 
-        object_descriptor_data = file_object.read(16)
+        object_descriptor_data = self._ReadData(
+            file_object, file_offset, 16, "object descriptor data"
+        )
 
         if self._debug:
             self._DebugPrintData("Object descriptor data", object_descriptor_data)
@@ -1053,8 +1071,6 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         # Make the offset relative to the start of the file.
         file_offset = objects_page.page_offset + data_offset
 
-        self._file_object.seek(file_offset, os.SEEK_SET)
-
         if self._debug:
             self._DebugPrintText(
                 f"Reading object record data segment at offset: {file_offset:d} "
@@ -1068,7 +1084,9 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         else:
             read_size = data_size
 
-        return self._file_object.read(read_size)
+        return self._ReadData(
+            self._file_object, file_offset, read_size, "object record data segment"
+        )
 
 
 class RepositoryFile(data_format.BinaryDataFile):
-- 
2.43.0


From c9b4dbb5ec0032b9645b3f0c5d1f71017c3ea2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:25 +0000
Subject: [PATCH 032/111] fix: close the CIM repository files and report
 missing files as a parse error

---
 dtformats/wmi_repository.py | 63 ++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 8e7df99..9c27944 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3525,16 +3525,20 @@ class CIMRepository(data_format.BinaryDataFormat):
                 debug=self._debug, output_writer=self._output_writer
             )
             # TODO: change to only read limited information.
+            # The file is closed since only the mapping tables are used.
             mapping_file.Open(mapping_file_glob[0])
+            mapping_file.Close()
 
-            if not active_mapping_file:
-                active_mapping_file = mapping_file
-                active_mapping_file_number = mapping_file_number
-            elif mapping_file.sequence_number > active_mapping_file.sequence_number:
-                active_mapping_file.Close()
+            if (
+                not active_mapping_file
+                or mapping_file.sequence_number > active_mapping_file.sequence_number
+            ):
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
+        if not active_mapping_file:
+            return None
+
         if (
             mapping_ver_file_number is not None
             and mapping_ver_file_number != active_mapping_file_number
@@ -3909,7 +3913,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._DebugPrintText(f"Reading: {mapping_file_path[0]:s}\n")
 
         mapping_file = MappingFile(debug=self._debug, output_writer=self._output_writer)
+        # The file is closed since only the mapping tables are used.
         mapping_file.Open(mapping_file_path[0])
+        mapping_file.Close()
 
         return mapping_file
 
@@ -4128,7 +4134,8 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         object_record_values = set()
         instances_per_namespace = {}
-        parent_namespaces = set()
+        # Use a dictionary to preserve the order of the index keys.
+        parent_namespaces = {}
 
         index_page = self._GetIndexRootPage()
         for key in self._GetKeysFromIndexPage(index_page):
@@ -4139,7 +4146,7 @@ class CIMRepository(data_format.BinaryDataFormat):
                 continue
 
             namespace_hash = key_segment[3:].lower()
-            parent_namespaces.add(namespace_hash)
+            parent_namespaces[namespace_hash] = True
 
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
@@ -4172,11 +4179,11 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespaces_by_hash[namespace_hash] = namespace
 
         for _ in range(5):
-            unresolved_namespaces = set()
+            unresolved_namespaces = {}
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
                 if not parent_namespace:
-                    unresolved_namespaces.add(parent_namespace_hash)
+                    unresolved_namespaces[parent_namespace_hash] = True
                     continue
 
                 instances = instances_per_namespace.get(parent_namespace_hash)
@@ -4214,6 +4221,10 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._index_binary_tree_file.Close()
             self._index_binary_tree_file = None
 
+        if self._repository_file:
+            self._repository_file.Close()
+            self._repository_file = None
+
     def GetInstances(self):
         """Retrieves instances.
 
@@ -4283,6 +4294,25 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         Args:
           path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          OSError: if the CIM repository cannot be opened.
+          ParseError: if the CIM repository cannot be read.
+        """
+        try:
+            self._OpenRepository(path)
+        except BaseException:
+            self.Close()
+            raise
+
+    def _OpenRepository(self, path):
+        """Opens the CIM repository.
+
+        Args:
+          path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          ParseError: if the CIM repository cannot be read.
         """
         basename = os.path.basename(path).lower()
 
@@ -4313,6 +4343,9 @@ class CIMRepository(data_format.BinaryDataFormat):
                 active_mapping_file = self._GetActiveMappingFile(path)
                 index_mapping_file = active_mapping_file
 
+            if not index_mapping_file:
+                raise errors.ParseError("Missing index mapping file.")
+
             self._index_mapping_table = index_mapping_file.GetIndexMappingTable()
 
             if index_mapping_file.format_version == 1:
@@ -4320,10 +4353,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             else:
                 self.format_version = "2.2"
 
-            if basename == "index.btr" or not active_mapping_file:
-                index_mapping_file.Close()
-
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
+            if not self._index_binary_tree_file:
+                raise errors.ParseError("Missing index binary-tree file.")
 
             if basename == "index.btr":
                 return
@@ -4334,10 +4366,13 @@ class CIMRepository(data_format.BinaryDataFormat):
                     active_mapping_file = self._GetActiveMappingFile(path)
                 objects_mapping_file = active_mapping_file
 
-            self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
+            if not objects_mapping_file:
+                raise errors.ParseError("Missing objects mapping file.")
 
-            objects_mapping_file.Close()
+            self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
             self._objects_data_file = self._OpenObjectsDataFile(path)
+            if not self._objects_data_file:
+                raise errors.ParseError("Missing objects data file.")
 
             self._ReadClassDefinitionsFromObjectRecords()
-- 
2.43.0


From 7716956947258feca4e76f920644750fa00fa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 033/111] fix: do not read the same CIM index binary-tree sub
 page more than once

---
 dtformats/wmi_repository.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 9c27944..900f3e1 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3724,20 +3724,41 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return self._index_root_page
 
-    def _GetKeysFromIndexPage(self, index_page):
+    def _GetKeysFromIndexPage(self, index_page, mapped_page_numbers=None):
         """Retrieves the keys from an index page.
 
+        Args:
+          index_page (IndexBinaryTreePage): an index binary-tree page or None.
+          mapped_page_numbers (Optional[set[int]]): mapped page numbers of
+              the sub pages that already have been read.
+
         Yields:
           str: a CIM key.
+
+        Raises:
+          ParseError: if the same sub page is referenced more than once.
         """
+        if mapped_page_numbers is None:
+            mapped_page_numbers = set()
+
         if index_page:
             yield from index_page.keys
 
             for mapped_page_number in index_page.sub_pages:
+                if mapped_page_number in mapped_page_numbers:
+                    raise errors.ParseError(
+                        f"Index binary-tree sub page: {mapped_page_number:d} already "
+                        f"read."
+                    )
+
+                mapped_page_numbers.add(mapped_page_number)
+
                 sub_index_page = self._GetIndexPageByMappedPageNumber(
                     mapped_page_number
                 )
-                yield from self._GetKeysFromIndexPage(sub_index_page)
+                yield from self._GetKeysFromIndexPage(
+                    sub_index_page, mapped_page_numbers=mapped_page_numbers
+                )
 
     def _GetObjectsPageByMappedPageNumber(self, mapped_page_number, is_data_page):
         """Retrieves a specific objects page by mapped page number.
-- 
2.43.0


From d54b6b5989ef6143890f9da204fb726b57b5e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 034/111] fix: report incomplete LevelDB data as a parse error

---
 dtformats/leveldb.py | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..7e8f4e5 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -84,8 +84,13 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
         data_size = len(data)
+        if data_size == 0:
+            raise errors.ParseError("Missing variable size integer data.")
 
         byte_value = data[0]
         bytes_read = 1
@@ -102,6 +107,9 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
             # TODO: check maximum size
 
+        if byte_value & 0x80:
+            raise errors.ParseError("Incomplete variable size integer data.")
+
         return integer_value, bytes_read
 
     @abc.abstractmethod
@@ -227,6 +235,8 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
         value_data = data[bytes_read : bytes_read + data_size]
+        if len(value_data) != data_size:
+            raise errors.ParseError(f"Incomplete {description:s} data.")
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
@@ -425,8 +435,15 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
         string_data = data[bytes_read : bytes_read + data_size]
+        if len(string_data) != data_size:
+            raise errors.ParseError(f"Incomplete {description:s} string data.")
 
-        string_value = string_data.decode("utf-8")
+        try:
+            string_value = string_data.decode("utf-8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} string with error: {exception!s}"
+            )
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
@@ -498,11 +515,17 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 f"Unsupported compression type: {block_trailer.compression_type!s}"
             )
 
-        if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+        try:
+            if block_trailer.compression_type == 1:
+                block_data = snappy.decompress(block_data)
+
+            elif block_trailer.compression_type == 2:
+                block_data = zstd.decompress(block_data)
 
-        elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+        except (snappy.UncompressError, zstd.Error) as exception:
+            raise errors.ParseError(
+                f"Unable to decompress block data with error: {exception!s}"
+            )
 
         return block_data
 
@@ -682,6 +705,10 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
         table_data_end_offset -= 4 * number_of_restart_values
+        if table_data_end_offset < 0:
+            raise errors.ParseError(
+                f"Unsupported number of restart values: {number_of_restart_values:d}"
+            )
 
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": number_of_restart_values}
@@ -763,6 +790,9 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
 
             shared_key_data = key_data
 
+            if key_data_size != len(key_data):
+                raise errors.ParseError(f"Incomplete entry: {entry_index:d} key data.")
+
             if key_data_size < 8:
                 raise errors.ParseError(f"Unsupported key data size: {key_data_size:d}")
 
@@ -795,6 +825,10 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
 
             value_data_end_offset = data_offset + value_data_size
             value_data = table_data[data_offset:value_data_end_offset]
+            if value_data_end_offset > table_data_end_offset:
+                raise errors.ParseError(
+                    f"Incomplete entry: {entry_index:d} value data."
+                )
 
             if self._debug:
                 self._DebugPrintData(f"Entry: {entry_index:d} value data", value_data)
-- 
2.43.0


From da85b68750dc5bf7a67664b4867fe9d3b0ccea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 035/111] fix: print the systemd journal entry offsets instead
 of a tuple

---
 dtformats/systemd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..59b9b27 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -84,13 +84,15 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_item in enumerate(entry_items):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(
+                entry_item.object_offset
+            )
             line = self._FormatValue(
                 f"    Entry item: {index:d} object offset", value_string
             )
             lines.append(line)
 
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.hash)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.hash)
             line = self._FormatValue(f"    Entry item: {index:d} hash", value_string)
             lines.append(line)
 
@@ -107,7 +109,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_object_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_object_offset)
             line = self._FormatValue(
                 f"    Entry object offset: {index:d}", value_string
             )
-- 
2.43.0


From 262b1f59c34792a4e1813785149621cfe38605bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 036/111] fix: do not read the same systemd journal entry array
 forever

---
 dtformats/systemd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 59b9b27..e353be5 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -359,8 +359,18 @@ class SystemdJournalFile(data_format.BinaryDataFile):
             file_object, file_header.entry_array_offset
         )
 
+        entry_array_offsets = {file_header.entry_array_offset}
+
         entry_object_offsets = list(entry_array_object.entry_object_offsets)
         while entry_array_object.next_entry_array_offset != 0:
+            if entry_array_object.next_entry_array_offset in entry_array_offsets:
+                raise errors.ParseError(
+                    f"Entry array object at offset: "
+                    f"0x{entry_array_object.next_entry_array_offset:08x} already read."
+                )
+
+            entry_array_offsets.add(entry_array_object.next_entry_array_offset)
+
             entry_array_object = self._ReadEntryArrayObject(
                 file_object, entry_array_object.next_entry_array_offset
             )
-- 
2.43.0


From bee4cc01424c3edc026f8d62086215407cd50a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 037/111] fix: report incomplete Spotlight store database data
 as a parse error

---
 dtformats/spotlight_storedb.py | 86 ++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 15 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..043a700 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -209,7 +209,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        data = file_object.read(self._data_size)
+        data = self._ReadData(file_object, 0, self._data_size, "streams map")
+
+        self.stream_values = []
 
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
@@ -229,7 +231,12 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
             self.stream_values.append(stream_value)
 
         if self._debug and self._data_size < self._file_size:
-            trailing_data = file_object.read(self._file_size - self._data_size)
+            trailing_data = self._ReadData(
+                file_object,
+                self._data_size,
+                self._file_size - self._data_size,
+                "trailing",
+            )
             self._DebugPrintData("Trailing data", trailing_data)
 
 
@@ -295,7 +302,9 @@ class SpotlightStreamsMapHeaderFile(data_format.BinaryDataFile):
         self.number_of_offsets = streams_map_header.unknown6
 
         if self._debug and bytes_read < self._file_size:
-            trailing_data = file_object.read(self._file_size - bytes_read)
+            trailing_data = self._ReadData(
+                file_object, bytes_read, self._file_size - bytes_read, "trailing"
+            )
             self._DebugPrintData("Trailing data", trailing_data)
 
 
@@ -351,7 +360,9 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         data_size = self._number_of_entries * 4
-        data = file_object.read(data_size)
+        data = self._ReadData(file_object, 0, data_size, "streams map offsets")
+
+        self.ranges = []
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
 
@@ -401,7 +412,9 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
             self._DebugPrintText("\n")
 
         if self._debug and data_size < self._file_size:
-            trailing_data = file_object.read(self._file_size - data_size)
+            trailing_data = self._ReadData(
+                file_object, data_size, self._file_size - data_size, "trailing"
+            )
             self._DebugPrintData("Trailing data", trailing_data)
 
 
@@ -732,8 +745,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(file_header, debug_info)
 
-        if self._debug:
-            trailing_data = file_object.read(file_header.map_offset - file_header_size)
+        if self._debug and file_header_size < file_header.map_offset:
+            trailing_data = self._ReadData(
+                file_object,
+                file_header_size,
+                file_header.map_offset - file_header_size,
+                "trailing",
+            )
             self._DebugPrintData("Trailing data", trailing_data)
 
         return file_header
@@ -945,8 +963,18 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
+        if page_header.page_size <= page_header_size:
+            raise errors.ParseError(
+                f"Unsupported map page size: {page_header.page_size:d}"
+            )
+
         if self._debug:
-            page_data = file_object.read(page_header.page_size - page_header_size)
+            page_data = self._ReadData(
+                file_object,
+                file_offset,
+                page_header.page_size - page_header_size,
+                "map page",
+            )
             self._DebugPrintData("Page data", page_data)
 
         return page_header
@@ -1496,7 +1524,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
+        page_data = self._ReadData(
+            file_object,
+            file_offset + bytes_read,
+            page_header.page_size - bytes_read,
+            "property page",
+        )
 
         data_type_map = self._GetDataTypeMap(
             "spotlight_store_db_property_values_header"
@@ -1544,6 +1577,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+        if page_header.page_size <= bytes_read:
+            raise errors.ParseError(
+                f"Unsupported property page size: {page_header.page_size:d}"
+            )
+
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1573,7 +1611,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
           ParseError: if the property pages cannot be read.
         """
         file_offset = block_number * 0x1000
+        file_offsets = set()
         while file_offset != 0:
+            if file_offset in file_offsets:
+                raise errors.ParseError(
+                    f"Property page at offset: 0x{file_offset:08x} already read."
+                )
+
+            file_offsets.add(file_offset)
+
             _, next_block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
@@ -1738,7 +1784,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
+        page_data = self._ReadData(
+            file_object,
+            file_offset + bytes_read,
+            page_header.page_size - bytes_read,
+            "record page",
+        )
 
         file_offset += bytes_read
 
@@ -1970,6 +2021,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._map_values = []
+        self._metadata_lists = {}
+        self._metadata_localized_strings = {}
+        self._metadata_types = {}
+        self._metadata_values = {}
+        self._record_descriptors = {}
+        self._record_pages_cache = {}
+
         file_header = self._ReadFileHeader(file_object)
 
         self._ReadMapPages(file_object, file_header.map_offset, file_header.map_size)
@@ -2028,8 +2087,5 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
-                )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                # TODO: do something with metadata_item or remove.
+                _ = self._GetMetadataItemByIdentifier(file_object, record_identifier)
-- 
2.43.0


From 6c2a01edb4fdb4196493e3f09114eb6c482bf065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:02 +0000
Subject: [PATCH 038/111] fix: read all Spotlight metadata attributes of a
 record and all integers of an array

---
 dtformats/spotlight_storedb.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 043a700..1fd1b43 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1485,7 +1485,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         data_offset = 0
         while data_offset < data_size:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                data[bytes_read + data_offset : bytes_read + data_size]
             )
             data_offset += integer_value_size
 
@@ -1647,8 +1647,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         record_header, bytes_read = self._ReadRecordHeader(
             page_data[page_data_offset:], page_data_offset
         )
+        # Note that the record data size does not include the 4 bytes of the size
+        # itself.
+        record_data_end_offset = page_data_offset + 4 + record_header.data_size
+
         page_data_offset += bytes_read
-        record_data_offset = bytes_read
 
         metadata_item = SpotlightStoreMetadataItem()
         metadata_item.identifier = record_header.identifier
@@ -1659,9 +1662,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         metadata_attribute_index = 0
         metadata_type_index = 0
 
-        record_data_end_offset = page_data_offset + record_header.data_size
-
-        while record_data_offset < record_header.data_size:
+        while page_data_offset < record_data_end_offset:
             relative_metadata_type_index, bytes_read = self._ReadVariableSizeInteger(
                 page_data[page_data_offset:record_data_end_offset]
             )
@@ -1672,7 +1673,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_type_index += relative_metadata_type_index
 
@@ -1693,8 +1693,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 metadata_type, page_data[page_data_offset:record_data_end_offset]
             )
 
+            if not metadata_attribute:
+                raise errors.ParseError(
+                    f"Missing metadata attribute type: {metadata_type_index:d}"
+                )
+
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_item.attributes[metadata_attribute.key] = metadata_attribute
             metadata_attribute_index += 1
@@ -1840,9 +1844,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             if self._debug:
-                record_data = page_data[
-                    page_data_offset + 4 : page_data_offset + record_header.data_size
-                ]
+                record_data_end_offset = page_data_offset + 4 + record_header.data_size
+                record_data = page_data[page_data_offset + 4 : record_data_end_offset]
                 self._DebugPrintData("Record data", record_data)
 
             if self._debug:
-- 
2.43.0


From 162dcbc05abbf95b97c723ba398995a3c911db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:12 +0000
Subject: [PATCH 039/111] fix: report data too small to map or that cannot be
 decompressed as a parse error

---
 dtformats/chrome_cache.py      |  2 +-
 dtformats/leveldb.py           |  2 +-
 dtformats/spotlight_storedb.py | 48 +++++++++++++++++++++-------------
 dtformats/wemf.py              |  4 +--
 dtformats/wmi_repository.py    |  2 +-
 5 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 5eba095..e7a4ff6 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -763,7 +763,7 @@ class ChromeCacheParser:
 
             try:
                 signature = self._UINT32LE.MapByteStream(signature_data)
-            except dtfabric_errors.MappingError as exception:
+            except dtfabric_errors.Error as exception:
                 raise errors.ParseError(
                     f"Unable to signature with error: {exception!s}"
                 )
diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 7e8f4e5..03dd376 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -719,7 +719,7 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 table_data[table_data_end_offset:], context=context
             )
 
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 (
                     f"Unable to parse array of 32-bit restart values with error: "
diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 1fd1b43..e731767 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -372,7 +372,7 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
@@ -608,7 +608,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -623,11 +623,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except lz4.block.LZ4BlockError as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: 0x{file_offset:08x} "
+                    f"with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -782,7 +788,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except dtfabric_errors.Error as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -805,7 +811,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except dtfabric_errors.Error as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -898,7 +904,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except dtfabric_errors.Error as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1139,7 +1145,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
@@ -1184,7 +1190,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1230,7 +1236,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1287,7 +1293,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except dtfabric_errors.Error as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1404,7 +1410,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except dtfabric_errors.Error as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1445,7 +1451,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
@@ -1726,7 +1732,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
@@ -1808,7 +1814,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress page data at offset: "
+                        f"0x{file_offset:08x} with error: {exception!s}"
+                    )
 
             # TODO: add support for other compression types.
             else:
diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index dab51ab..8048e19 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -199,7 +199,7 @@ class EMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -758,7 +758,7 @@ class WMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except dtfabric_errors.Error as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 900f3e1..5bf239f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -589,7 +589,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                 value_string = self._STRING.MapByteStream(
                     value_data[page_value_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except dtfabric_errors.Error as exception:
                 raise errors.ParseError(
                     f"Unable to parse page value: {index:d} string with error: "
                     f"{exception!s}"
-- 
2.43.0


From 1b72994e88d1b68a60602e36112e94ac48540ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:55 +0000
Subject: [PATCH 040/111] fix: do not use values of a previously read jump
 list, job or CUPS IPP file

---
 dtformats/cups_ipp.py  | 2 ++
 dtformats/job.py       | 2 ++
 dtformats/jump_list.py | 8 +++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..77fdd70 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -333,6 +333,8 @@ class CupsIppFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._last_charset_attribute = "ascii"
+
         self._ReadHeader(file_object)
         self._ReadAttributesGroup(file_object)
 
diff --git a/dtformats/job.py b/dtformats/job.py
index c78b96d..2370b23 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -181,6 +181,8 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._task_configuration = WindowsTaskConfiguration()
+
         data_section = self._ReadStructureObjectFromFileObject(
             file_object, 0, "job_fixed_length_data_section", "fixed-length data section"
         )
diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 4c3f1c5..b4febd2 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -243,7 +243,11 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
         olecf_file = pyolecf.file()
         olecf_file.open_file_object(file_object)
 
-        self._ReadDestList(olecf_file.root_item)
+        try:
+            self._ReadDestList(olecf_file.root_item)
+        except BaseException:
+            olecf_file.close()
+            raise
 
         self._olecf_file = olecf_file
 
@@ -458,6 +462,8 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._entries = []
+
         file_header, file_offset = self._ReadFileHeader(file_object)
 
         data_type_map = self._GetDataTypeMap("custom_entry_header")
-- 
2.43.0


From 920b82d5791f314ad5def8a3bce12e6dbb460d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:30 +0000
Subject: [PATCH 041/111] fix: report a TZif time zone string without its end
 as a parse error

---
 dtformats/tzif.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 16b6153..9af164f 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -419,5 +419,8 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
                 "time zone string",
             )
 
+            if len(data) < 2 or data[:1] != b"\n" or data[-1:] != b"\n":
+                raise errors.ParseError("Incomplete time zone string data.")
+
             if self._debug:
                 self._DebugPrintData("Time zone string", data)
-- 
2.43.0


From c8f125d58b145c18cd67fcc710a886f3dcc29fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:35 +0000
Subject: [PATCH 042/111] fix: unified logging: compute catalog string offsets
 in bytes instead of characters

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index e4441f7..05aa546 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3059,7 +3059,7 @@ class TraceV3File(data_format.BinaryDataFile):
         map_offset = 0
         for string in catalog.sub_system_strings:
             strings_map[map_offset] = string
-            map_offset += len(string) + 1
+            map_offset += len(string.encode("utf-8")) + 1
 
         return strings_map
 
-- 
2.43.0


From 4a53591b59f60179c891065a607a4d6730f68745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:58 +0000
Subject: [PATCH 043/111] fix: unified logging: do not attribute a reference at
 the end of a range to the range before it

---
 dtformats/unified_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 05aa546..c89fafa 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2236,7 +2236,7 @@ class DSCFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - range_offset
-            if relative_offset <= range_size:
+            if relative_offset < range_size:
                 if is_dynamic:
                     string = "%s"
                 else:
@@ -3177,7 +3177,7 @@ class TraceV3File(data_format.BinaryDataFile):
                 ):
                     continue
 
-                if load_address_lower <= (
+                if load_address_lower < (
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
@@ -5298,7 +5298,7 @@ class UUIDTextFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - entry_descriptor.offset
-            if relative_offset <= entry_descriptor.data_size:
+            if relative_offset < entry_descriptor.data_size:
                 file_offset += relative_offset
                 return self._ReadString(self._file_object, file_offset)
 
-- 
2.43.0


From e49c4bf81351cf52e34685eb9f8d2d01e776057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:03 +0000
Subject: [PATCH 044/111] fix: unified logging: support processes without main
 or dsc UUID and signposts without image

---
 dtformats/unified_logging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index c89fafa..a77c6d5 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2655,6 +2655,9 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
+            process_information_entry.main_uuid = None
+            process_information_entry.dsc_uuid = None
+
             if process_information_entry.main_uuid_index >= 0:
                 process_information_entry.main_uuid = catalog.uuids[
                     process_information_entry.main_uuid_index
@@ -4299,7 +4302,7 @@ class TraceV3File(data_format.BinaryDataFile):
                             name_string_reference,
                             is_dynamic,
                         )
-                        name_string = name_image_values.string
+                        name_string = getattr(name_image_values, "string", None)
 
                     log_entry.signpost_identifier = getattr(
                         tracepoint_data_object, "signpost_identifier", None
-- 
2.43.0


From c30869950544dff6f47e948c885d60e263fb07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:24 +0000
Subject: [PATCH 045/111] fix: do not read past the used part of an
 uncompressed Spotlight record page

---
 dtformats/spotlight_storedb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index e731767..ddd9c9f 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1829,6 +1829,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
                 raise errors.ParseError("Unsupported compression type")
 
+        else:
+            # Note that the used page size includes the page header.
+            page_data = page_data[: page_header.used_page_size - bytes_read]
+
         return page_header, page_data
 
     def _ReadRecordPageValues(self, page_data, page_offset):
-- 
2.43.0


From 73ebf579308ead2f4343a49bd5134115df2fe530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:39 +0000
Subject: [PATCH 046/111] fix: report an incomplete Spotlight variable size
 integer as a parse error

---
 dtformats/spotlight_storedb.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index ddd9c9f..eb25465 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1744,6 +1744,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset += bytes_read
 
+        if data_offset >= len(data):
+            raise errors.ParseError(
+                f"Missing record flags at offset: 0x{page_data_offset:08x}"
+            )
+
         flags = data[data_offset]
 
         data_offset += 1
@@ -1969,7 +1974,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data.")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -1979,6 +1990,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 break
             number_of_additional_bytes += 1
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Variable size integer data too small.")
+
         if number_of_additional_bytes > 4:
             byte_value = 0
         elif number_of_additional_bytes > 0:
-- 
2.43.0


From d9fc9510c4fce42810f2c5c26b5f5aa0bc1429fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:54 +0000
Subject: [PATCH 047/111] fix: show the IP address of an utmp entry instead of
 a formatting tuple

---
 dtformats/utmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..b703098 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -64,11 +64,13 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         if entry.ip_address[4:] == self._EMPTY_IP_ADDRESS[4:]:
-            value_string = self._FormatArrayOfIntegersAsIPv4Address(
+            value_string, _ = self._FormatArrayOfIntegersAsIPv4Address(
                 entry.ip_address[:4]
             )
         else:
-            value_string = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
+            value_string, _ = self._FormatArrayOfIntegersAsIPv6Address(
+                entry.ip_address
+            )
 
         self._DebugPrintValue("IP address", value_string)
 
-- 
2.43.0


From 462b1bb60794f05afcba3aec8f6fe849aa3c51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 048/111] fix: do not use the remnant data after an INFO2
 original filename

---
 dtformats/recycler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..9643cef 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -42,6 +42,12 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the string could not be decoded.
         """
+        # Note that the data after the end-of-string character can contain remnant
+        # data and that the first character is 0 if the drive letter was wiped.
+        end_of_string_offset = string.find(b"\x00", 1)
+        if end_of_string_offset != -1:
+            string = string[:end_of_string_offset]
+
         try:
             return string.decode(self._codepage)
         except UnicodeDecodeError as exception:
-- 
2.43.0


From 90e3b7c344c0d441832c1de2cc702c5778608cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:02 +0000
Subject: [PATCH 049/111] fix: show the values of the INFO2 file header

---
 dtformats/recycler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 9643cef..73cc9a4 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -123,7 +123,7 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
             file_object, 0, data_type_map, "file header"
         )
         if self._debug:
-            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_entry", None)
+            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_header", None)
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if file_header.file_entry_size not in (280, 800):
-- 
2.43.0


From a35b9ffe66f23014d9cd9ab19340639b3a325800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:15 +0000
Subject: [PATCH 050/111] fix: report an utmp entry with a string that is not
 UTF-8 instead of failing when tracing

---
 dtformats/utmp.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index b703098..a2c6688 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -39,18 +39,15 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
-        value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.terminal.replace(b"\0", b""))
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
-        value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.username.replace(b"\0", b""))
         self._DebugPrintValue("Username", value_string)
 
-        value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.hostname.replace(b"\0", b""))
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -151,14 +148,12 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         Args:
           entry (macosx_utmpx_entry): entry.
         """
-        value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.username.replace(b"\0", b""))
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
-        value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.terminal.replace(b"\0", b""))
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -174,8 +169,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
 
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
-        value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.hostname.replace(b"\0", b""))
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From d5904bbe92db9e6e2c1d5361b91a999326137a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:29 +0000
Subject: [PATCH 051/111] fix: show the minor version of a job product version

---
 dtformats/job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index 2370b23..cd1227c 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -121,7 +121,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
           str: integer formatted as a product version.
         """
         major_version = (integer >> 8) & 0xFF
-        minor_version = (integer >> 8) & 0xFF
+        minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
     def _FormatString(self, string):
-- 
2.43.0


From 68c52a34ba244b0f4923901a5c3bc68c4b06e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:40 +0000
Subject: [PATCH 052/111] fix: read a job string without characters at the end
 of the file

---
 dtformats/job.py   | 28 +++++++++++++++++++++-------
 dtformats/job.yaml |  1 -
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index cd1227c..9a10466 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -135,7 +135,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         """
         # TODO: print string.number_of_characters on a separate line
         number_of_bytes = string.number_of_characters * 2
-        return f"({number_of_bytes:d} bytes) {string.string:s}"
+        return f"({number_of_bytes:d} bytes) {self._GetString(string):s}"
 
     def _FormatSystemTime(self, systemtime):
         """Formats a SYSTEMTIME structure.
@@ -164,6 +164,18 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         """
         return f"{time.hours:02d}:{time.minutes:02d}"
 
+    def _GetString(self, string):
+        """Retrieves the value of a string structure.
+
+        Args:
+          string (job_string): string structure
+
+        Returns:
+          str: string without end-of-string character.
+        """
+        string_value, _, _ = string.string.partition("\x00")
+        return string_value
+
     def GetWindowsTaskConfiguration(self):
         """Retrieves the Windows task configuration represented by the job file.
 
@@ -209,10 +221,12 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
                 debug_info = self._DEBUG_INFORMATION.get("job_trigger")
                 self._DebugPrintStructureObject(trigger, debug_info)
 
-        self._task_configuration.application_name = data_section.application_name.string
-        self._task_configuration.parameters = data_section.parameters.string
-        self._task_configuration.working_directory = (
-            data_section.working_directory.string
+        self._task_configuration.application_name = self._GetString(
+            data_section.application_name
+        )
+        self._task_configuration.parameters = self._GetString(data_section.parameters)
+        self._task_configuration.working_directory = self._GetString(
+            data_section.working_directory
         )
-        self._task_configuration.author = data_section.author.string
-        self._task_configuration.comment = data_section.comment.string
+        self._task_configuration.author = self._GetString(data_section.author)
+        self._task_configuration.comment = self._GetString(data_section.comment)
diff --git a/dtformats/job.yaml b/dtformats/job.yaml
index fbbe7d1..8c65751 100644
--- a/dtformats/job.yaml
+++ b/dtformats/job.yaml
@@ -104,7 +104,6 @@ members:
   type: string
   encoding: utf-16-le
   element_data_type: wchar16
-  elements_terminator: "\x00\x00"
   number_of_elements: job_string.number_of_characters
 ---
 name: job_user_data
-- 
2.43.0


From 0ffda69fd547bbc17e44af2f3f25c6bc5e89fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:44 +0000
Subject: [PATCH 053/111] fix: read TZif time zone information without
 transition times

---
 dtformats/tzif.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9af164f..8039f2b 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -199,6 +199,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the transition time index cannot be read.
         """
+        if not file_header.number_of_transition_times:
+            return
+
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_transition_time_index")
 
@@ -303,6 +306,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 32-bit transition times cannot be read.
         """
+        if not file_header.number_of_transition_times:
+            return
+
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_transition_times_32bit")
 
@@ -345,6 +351,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 64-bit transition times cannot be read.
         """
+        if not file_header.number_of_transition_times:
+            return
+
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_transition_times_64bit")
 
-- 
2.43.0


From 26fdeeaae20c39ecb61a0c893f83b9b9789dd3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:48 +0000
Subject: [PATCH 054/111] fix: read 64-bit TZif leap second records of 12 bytes

---
 dtformats/tzif.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 8039f2b..d5ae473 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -128,18 +128,19 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         return file_header
 
-    def _ReadLeapSecondRecords(self, file_object, file_header):
+    def _ReadLeapSecondRecords(self, file_object, file_header, record_size):
         """Reads the lead second records.
 
         Args:
           file_object (file): file-like object.
           file_header (tzif_file_header): file header.
+          record_size (int): size of a leap second record.
 
         Raises:
           ParseError: if the leap second records cannot be read.
         """
         file_offset = file_object.tell()
-        data_size = 8 * file_header.number_of_leap_seconds
+        data_size = record_size * file_header.number_of_leap_seconds
 
         data = self._ReadData(
             file_object, file_offset, data_size, "leap second records"
@@ -273,7 +274,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, 8)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
@@ -292,7 +293,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, 12)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
-- 
2.43.0


From 9cc8ee32f732e68fea0fa80185a6d8c2ecc5a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:19 +0000
Subject: [PATCH 055/111] fix: describe Chrome cache entries with their own
 definition when tracing

---
 dtformats/chrome_cache.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.debug.yaml b/dtformats/chrome_cache.debug.yaml
index a19a4b6..00668b1 100644
--- a/dtformats/chrome_cache.debug.yaml
+++ b/dtformats/chrome_cache.debug.yaml
@@ -39,7 +39,7 @@ attributes:
   description: "User"
   format: custom:array_of_decimals
 ---
-data_type_map: chrome_cache_data_block_file_header
+data_type_map: chrome_cache_entry
 attributes:
 - name: hash
   description: "Hash"
-- 
2.43.0


From e6201aef6e995e1430f152ffcbdbc0fb9984d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:24 +0000
Subject: [PATCH 056/111] fix: format Firefox cache locations when tracing

---
 dtformats/firefox_cache1.debug.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index f87a8d1..d6d8a1e 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -10,7 +10,7 @@ attributes:
   format: decimal
 - name: location
   description: "Location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: fetch_count
   description: "Fetch count"
   format: decimal
@@ -73,7 +73,7 @@ attributes:
   format: decimal
 - name: data_location
   description: "Data location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: metadata_location
   description: "Metadata location"
-  format: custom:cache_lcation
+  format: custom:cache_location
-- 
2.43.0


From 5ae396e73a3e9ab45edaf384367f50331358c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:29 +0000
Subject: [PATCH 057/111] fix: read a Safari cookies file without pages

---
 dtformats/safari_cookies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index eef30d3..9bfad79 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -137,6 +137,10 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         # TODO: check for upper limit.
         page_sizes_data_size = file_header.number_of_pages * 4
 
+        if page_sizes_data_size == 0:
+            self._page_sizes = []
+            return
+
         page_sizes_data = self._ReadData(
             file_object, file_offset, page_sizes_data_size, "page sizes"
         )
-- 
2.43.0


From 53a533105b5282ca5e32a5f56bd7e88d7ab4d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 058/111] fix: show keychain attribute identifiers as text when
 tracing

---
 dtformats/keychain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index b996880..c47f701 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -160,7 +160,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        value_string, _ = self._FormatIntegerAsHexadecimal8(integer)
+        return value_string
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
-- 
2.43.0


From 96a5d964e2d8623fe3ff99a0379412dd10737004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:36 +0000
Subject: [PATCH 059/111] fix: keep the last character of a restore point
 process name

---
 dtformats/rp_change_log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index d215e75..b5e8b7e 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -239,7 +239,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         if self._debug:
             self._DebugPrintValue(
-                "Process name", change_log_entry_record2.process_name[:-1]
+                "Process name", change_log_entry_record2.process_name
             )
 
             self._DebugPrintText("\n")
@@ -251,7 +251,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             change_log_entry_record.file_attribute_flags
         )
         change_log_entry.sequence_number = change_log_entry_record.sequence_number
-        change_log_entry.process_name = change_log_entry_record2.process_name[:-1]
+        change_log_entry.process_name = change_log_entry_record2.process_name
 
         sub_record_data_offset = context.byte_size
         sub_record_data_size = record_size - 4
-- 
2.43.0


From 9ad602685d40bf4c5cb577c91535dfb2b1aa383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:41 +0000
Subject: [PATCH 060/111] fix: trace BSM tokens without debug information

---
 dtformats/bsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..a0966a9 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -968,7 +968,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-            self._DebugPrintStructureObject(token, debug_info)
+            if debug_info:
+                self._DebugPrintStructureObject(token, debug_info)
 
         return token
 
-- 
2.43.0


From 943962d4e36aa3b2f8a2ddd26a84b64c11702e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:45 +0000
Subject: [PATCH 061/111] fix: read the header token of a BSM record once

---
 dtformats/bsm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index a0966a9..3ec52f8 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -924,6 +924,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         header_record_size = token.record_size
         record_end_offset = file_offset + header_record_size
+        file_offset = file_object.tell()
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
 
-- 
2.43.0


From 3eb6a8f57c6d3faef58f1199c3ca4796c9f9f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:49 +0000
Subject: [PATCH 062/111] fix: read BSM data tokens with elements larger than a
 byte

---
 dtformats/bsm.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/bsm.yaml b/dtformats/bsm.yaml
index 611fda7..734083e 100644
--- a/dtformats/bsm.yaml
+++ b/dtformats/bsm.yaml
@@ -162,7 +162,7 @@ members:
 - name: data
   type: stream
   element_data_type: byte
-  elements_data_size: bsm_token_data.number_of_elements
+  elements_data_size: bsm_token_data.number_of_elements << bsm_token_data.element_data_type
 ---
 name: bsm_token_exec_args
 type: structure
-- 
2.43.0


From 9378f97e063a08e3c3529db1bb9d8a37b3fab221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:05 +0000
Subject: [PATCH 063/111] fix: read restore point change log records that are
 not strings

---
 dtformats/rp_change_log.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index b5e8b7e..df6eacd 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -418,17 +418,17 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
         if record_header.record_type in (4, 5, 9):
             data_type_map = self._GetDataTypeMap("utf16le_string")
 
-        try:
-            value_string = self._ReadStructureFromByteStream(
-                record_data[record_data_offset:],
-                record_data_offset,
-                data_type_map,
-                "value string",
-            )
-        except (ValueError, errors.ParseError) as exception:
-            raise errors.ParseError(
-                f"Unable to parse UTF-16 string with error: {exception!s}"
-            )
+            try:
+                value_string = self._ReadStructureFromByteStream(
+                    record_data[record_data_offset:],
+                    record_data_offset,
+                    data_type_map,
+                    "value string",
+                )
+            except (ValueError, errors.ParseError) as exception:
+                raise errors.ParseError(
+                    f"Unable to parse UTF-16 string with error: {exception!s}"
+                )
 
         # TODO: add support for other record types.
         # TODO: store record values in runtime objects.
-- 
2.43.0


From 77d97dce0ace4adcc56e495fbcfde67666e14755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 064/111] fix: describe every BSM token type when tracing

---
 dtformats/bsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 3ec52f8..e9c4d0f 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -783,6 +783,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x3C: "token exec_args",
         0x3D: "token exec_env",
         0x3E: "token attr32",
+        0x52: "token exit",
         0x60: "token zonename",
         0x71: "token arg64",
         0x72: "token return64",
@@ -956,7 +957,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
           ParseError: if the record cannot be read.
         """
         token_type = self._ReadTokenType(file_object, file_offset)
-        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "")
+        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "token")
 
         data_type_map = self._GetDataTypeMap("bsm_token")
 
-- 
2.43.0


From c25b079f454cc15071dd5d39c5362b01bd724b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:48 +0000
Subject: [PATCH 065/111] fix: read BSM execution argument and environment
 tokens

---
 dtformats/bsm.py   | 14 ++++++++++++++
 dtformats/bsm.yaml |  4 ----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index e9c4d0f..4e093f6 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -803,6 +803,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x82: "token sockunix",
     }
 
+    _EXEC_TOKEN_TYPES = frozenset([0x3C, 0x3D])
+
     _HEADER_TOKEN_TYPES = frozenset([0x14, 0x15, 0x74, 0x79])
 
     _TRAILER_TOKEN_TYPE = 0x13
@@ -967,6 +969,18 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        if token_type in self._EXEC_TOKEN_TYPES:
+            # The strings are read one by one since the size hint of a sequence of
+            # strings can exceed the size of the token.
+            data_type_map = self._GetDataTypeMap("cstring")
+
+            token.strings = []
+            for _ in range(token.number_of_strings):
+                string, _ = self._ReadStructureFromFileObject(
+                    file_object, file_object.tell(), data_type_map, "string"
+                )
+                token.strings.append(string)
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
diff --git a/dtformats/bsm.yaml b/dtformats/bsm.yaml
index 734083e..493e8c1 100644
--- a/dtformats/bsm.yaml
+++ b/dtformats/bsm.yaml
@@ -174,10 +174,6 @@ members:
   values: [0x3c, 0x3d]
 - name: number_of_strings
   data_type: uint32
-- name: strings
-  type: sequence
-  element_data_type: cstring
-  number_of_elements: bsm_token_exec_args.number_of_strings
 ---
 name: bsm_token_exit
 type: structure
-- 
2.43.0


From 0f9e677c5bc6eec21987a1dad651096e473d87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 066/111] fix: trace instance branch nodes of a cim.rep file

---
 dtformats/wmi_repository.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.debug.yaml b/dtformats/wmi_repository.debug.yaml
index 77296c3..38067d4 100644
--- a/dtformats/wmi_repository.debug.yaml
+++ b/dtformats/wmi_repository.debug.yaml
@@ -310,7 +310,7 @@ attributes:
   format: custom:offset
 - name: unknown1
   description: "Unknown1"
-  format: binary_data
+  format: hexadecimal_8digits
 - name: instance_leaf_node_offset
   description: "Instance leaf node offset"
   format: custom:offset
-- 
2.43.0


From afca725657fdd842c51fe92a6f9271c25d6380dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 067/111] fix: trace the child objects list of a cim.rep
 instance

---
 dtformats/wmi_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 5bf239f..accadaf 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2008,15 +2008,15 @@ class RepositoryFile(data_format.BinaryDataFile):
                 ):
                     if value_node_offset > 40:
                         node_cell = self._ReadNodeCell(
-                            file_object, root_node_offset - 4
+                            file_object, value_node_offset - 4
                         )
-                        root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, root_node_offset
+                        class_root_node = self._ReadClassDefinitionRootNode(
+                            node_cell.data, value_node_offset
                         )
-                        if root_node.class_definition_branch_node_offset > 40:
+                        if class_root_node.class_definition_branch_node_offset > 40:
                             self._ReadClassDefinition(
                                 file_object,
-                                root_node.class_definition_branch_node_offset,
+                                class_root_node.class_definition_branch_node_offset,
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-- 
2.43.0


From aeca04a1a8665cef43e2b20bc9a267406e99b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:58 +0000
Subject: [PATCH 068/111] fix: read every fixed size CIM instance property type

---
 dtformats/wmi_repository.yaml | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index 97cc340..bd7de2e 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -474,6 +474,14 @@ attributes:
   false_value: 0
   true_value: 0xffff
 ---
+name: property_value_sint8
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 1
+  units: bytes
+---
 name: property_value_uint8
 type: integer
 attributes:
@@ -482,6 +490,14 @@ attributes:
   size: 1
   units: bytes
 ---
+name: property_value_sint16
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 2
+  units: bytes
+---
 name: property_value_uint16
 type: integer
 attributes:
@@ -506,6 +522,14 @@ attributes:
   size: 4
   units: bytes
 ---
+name: property_value_sint64
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 8
+  units: bytes
+---
 name: property_value_uint64
 type: integer
 attributes:
@@ -514,6 +538,20 @@ attributes:
   size: 8
   units: bytes
 ---
+name: property_value_real32
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 4
+  units: bytes
+---
+name: property_value_real64
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 8
+  units: bytes
+---
 name: property_value_offset
 type: integer
 attributes:
-- 
2.43.0


From 95fe6cea3b9da0f9db9d0b58891f656ebd48bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:58 +0000
Subject: [PATCH 069/111] fix: read unsigned 32-bit CIM qualifier values

---
 dtformats/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index accadaf..be7773d 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2633,7 +2633,7 @@ class ClassDefinition(CIMObject):
                 "CIM-TYPE-SINT8",
                 "CIM-TYPE-UINT8",
                 "CIM-TYPE-UINT16",
-                "CIM-TYPE-UINT16",
+                "CIM-TYPE-UINT32",
                 "CIM-TYPE-SINT64",
                 "CIM-TYPE-UINT64",
             ):
-- 
2.43.0


From 4a4991145b4a2d81340c44d52eb8c5d6c2218ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:34 +0000
Subject: [PATCH 070/111] fix: open a CIM repository in a directory with a name
 like a glob

---
 dtformats/wmi_repository.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index be7773d..b909b7e 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3513,7 +3513,7 @@ class CIMRepository(data_format.BinaryDataFormat):
             filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+            path_with_glob = self._file_system_helper.JoinPath([glob.escape(path), filename_as_glob])
             mapping_file_glob = glob.glob(path_with_glob)
             if not mapping_file_glob:
                 continue
@@ -3896,7 +3896,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
@@ -3924,7 +3924,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           MappingFile: mapping file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+        mapping_file_glob = self._file_system_helper.JoinPath([glob.escape(path), filename_as_glob])
 
         mapping_file_path = glob.glob(mapping_file_glob)
         if not mapping_file_path:
@@ -3951,7 +3951,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         mapping_version_file_path = glob.glob(mapping_version_file_glob)
@@ -3972,7 +3972,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         objects_data_file_path = glob.glob(objects_data_file_glob)
@@ -4000,7 +4000,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
         repository_file_path = glob.glob(repository_file_glob)
         if not repository_file_path:
-- 
2.43.0


From c07bddbe14109272aeb785df11b191f14c3ead4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:34 +0000
Subject: [PATCH 071/111] fix: report a missing or cyclic CIM super class

---
 dtformats/wmi_repository.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index b909b7e..c5cfd08 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3607,17 +3607,21 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             class_definitions = [class_definition]
             while class_definition.super_class_name:
-                class_definition = self._GetClassDefinitionByName(
-                    class_definition.super_class_name
-                )
+                super_class_name = class_definition.super_class_name
+                class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
                     raise RuntimeError(
                         (
                             f"Unable to retrieve definition of class with name: "
-                            f"{class_definition.super_class_name:s}"
+                            f"{super_class_name:s}"
                         )
                     )
 
+                if class_definition in class_definitions:
+                    raise errors.ParseError(
+                        f"Class: {super_class_name:s} is derived from itself."
+                    )
+
                 class_definitions.append(class_definition)
 
             # The ClassValueDataMap.Build functions want the class definitions
-- 
2.43.0


From 742dcd02d2d62401dd48913292203e3365eb98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:34 +0000
Subject: [PATCH 072/111] fix: report a CIM object record without a descriptor

---
 dtformats/wmi_repository.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index c5cfd08..feadffd 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3822,6 +3822,12 @@ class CIMRepository(data_format.BinaryDataFormat):
                 object_descriptor = object_page.GetObjectDescriptor(
                     record_identifier, data_size
                 )
+                if not object_descriptor:
+                    raise errors.ParseError(
+                        f"Unable to determine object descriptor of objects record: "
+                        f"{record_identifier:d}."
+                    )
+
 
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
-- 
2.43.0


From cbb4900ca7bfe10560330b58ae7b7fd4a4202901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:34 +0000
Subject: [PATCH 073/111] fix: trace CIM class definition and instance object
 records

---
 dtformats/wmi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index feadffd..b8cdfef 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2842,7 +2842,7 @@ class ClassDefinitionReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self.data = None
         self.offset = None
         self.super_class_name = None
@@ -2908,7 +2908,7 @@ class InstanceReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self._format_version = format_version
         self.class_name = None
         self.class_name_hash = None
-- 
2.43.0


From 804ab7a5ddb098837d4bd2710b3f0578d25f066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:21 +0000
Subject: [PATCH 074/111] fix: report a broken CIM repository as a parse error

---
 dtformats/wmi_repository.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index b8cdfef..f9cbd4f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3590,7 +3590,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           ClassValueMap: class value map or None.
 
         Raises:
-          RuntimeError: if a class definition cannot be found.
+          ParseError: if a class definition cannot be found.
         """
         lookup_key = class_name_hash.lower()
 
@@ -3598,7 +3598,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         if not class_value_data_map:
             class_definition = self._GetClassDefinitionByHash(class_name_hash)
             if not class_definition:
-                raise RuntimeError(
+                raise errors.ParseError(
                     (
                         f"Unable to retrieve definition of class with hash: "
                         f"{class_name_hash:s}"
@@ -3610,7 +3610,7 @@ class CIMRepository(data_format.BinaryDataFormat):
                 super_class_name = class_definition.super_class_name
                 class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
-                    raise RuntimeError(
+                    raise errors.ParseError(
                         (
                             f"Unable to retrieve definition of class with name: "
                             f"{super_class_name:s}"
@@ -3682,19 +3682,19 @@ class CIMRepository(data_format.BinaryDataFormat):
           IndexBinaryTreePage: an index binary-tree page or None.
 
         Raises:
-          RuntimeError: if the index first mapped page could not be determined.
+          ParseError: if the index first mapped page could not be determined.
         """
         page_number = self._index_mapping_table.ResolveMappedPageNumber(0)
 
         index_page = self._index_binary_tree_file.GetPage(page_number)
         if not index_page:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unable to determine first mapped index binary-tree page: "
                 f"{page_number:d}."
             )
 
         if index_page.page_type != 0xADDD:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unsupported first mapped index binary-tree page type: "
                 f"0x{index_page.page_type:04x}"
             )
-- 
2.43.0


From 39197e001f2ffc03898b73657fc9ad511090fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:11 +0000
Subject: [PATCH 075/111] fix: report a cim.rep file without its root node
 cells

---
 dtformats/wmi_repository.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index f9cbd4f..2bea130 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2154,6 +2154,14 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 break
 
+        if (
+            self._root_namespace_node_offset is None
+            or self._system_class_definition_root_node_offset is None
+        ):
+            raise errors.ParseError(
+                "Missing root namespace or system class definition node cell."
+            )
+
 
 class CIMObject(data_format.BinaryDataFormat):
     """CIM object."""
-- 
2.43.0


From 66985683f56689b2ba77b75b68d651526d625d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:16 +0000
Subject: [PATCH 076/111] fix: report cyclic and empty cells of a cim.rep file

---
 dtformats/wmi_repository.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2bea130..15a2bd0 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1150,9 +1150,18 @@ class RepositoryFile(data_format.BinaryDataFile):
         list_node = self._ReadChildObjectsListNode(node_cell.data, list_node_offset)
 
         list_element = 1
+        list_element_node_offsets = set()
         next_list_element_node_offset = list_node.first_list_element_node_offset
 
         while next_list_element_node_offset > 40:
+            if next_list_element_node_offset in list_element_node_offsets:
+                raise errors.ParseError(
+                    f"List element node at offset: {next_list_element_node_offset:d} "
+                    f"(0x{next_list_element_node_offset:08x}) already read."
+                )
+
+            list_element_node_offsets.add(next_list_element_node_offset)
+
             if self._debug:
                 self._DebugPrintText(f"Reading list element: {list_element:d}\n")
 
@@ -2144,7 +2153,14 @@ class RepositoryFile(data_format.BinaryDataFile):
             elif file_header.system_class_cell_number == cell_number:
                 self._system_class_definition_root_node_offset = file_offset + 4
 
-            file_offset += node_cell.size & 0x7FFFFFF
+            node_cell_size = node_cell.size & 0x7FFFFFF
+            if node_cell_size < 4:
+                raise errors.ParseError(
+                    f"Unsupported node cell size: {node_cell_size:d} at offset: "
+                    f"{file_offset:d} (0x{file_offset:08x})."
+                )
+
+            file_offset += node_cell_size
             cell_number += 1
 
             if (
-- 
2.43.0


From 4b9342cbcfecb0bee45d3e90aa1d4bdd277e988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 077/111] fix: report missing CIM index pages instead of
 skipping their keys

---
 dtformats/wmi_repository.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 15a2bd0..086c252 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3687,15 +3687,19 @@ class CIMRepository(data_format.BinaryDataFormat):
           mapped_page_number (int): mapped page number.
 
         Returns:
-          IndexBinaryTreePage: an index binary-tree page or None.
+          IndexBinaryTreePage: an index binary-tree page.
+
+        Raises:
+          ParseError: if the index page cannot be read.
         """
         page_number = self._index_mapping_table.ResolveMappedPageNumber(
             mapped_page_number
         )
         index_page = self._index_binary_tree_file.GetPage(page_number)
         if not index_page:
-            logging.warning(f"Unable to read index binary-tree page: {page_number:d}.")
-            return None
+            raise errors.ParseError(
+                f"Unable to read index binary-tree page: {page_number:d}."
+            )
 
         return index_page
 
@@ -3729,7 +3733,10 @@ class CIMRepository(data_format.BinaryDataFormat):
         """Retrieves the index root page.
 
         Returns:
-          IndexBinaryTreePage: an index binary-tree page or None.
+          IndexBinaryTreePage: an index binary-tree page.
+
+        Raises:
+          ParseError: if the index root page cannot be read.
         """
         if not self._index_root_page:
             if self.format_version == "2.1":
@@ -3743,10 +3750,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             )
             index_page = self._index_binary_tree_file.GetPage(page_number)
             if not index_page:
-                logging.warning(
+                raise errors.ParseError(
                     f"Unable to read index binary-tree root page: {page_number:d}."
                 )
-                return None
 
             self._index_root_page = index_page
 
-- 
2.43.0


From 65d8f6bd155bdec8ac42083e45c87e4084eddca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:49 +0000
Subject: [PATCH 078/111] fix: split a relative path into the segments of its
 absolute path

---
 dtformats/file_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/file_system.py b/dtformats/file_system.py
index e48b0ed..4aec4b5 100644
--- a/dtformats/file_system.py
+++ b/dtformats/file_system.py
@@ -189,5 +189,9 @@ class NativeFileSystemHelper:
           list[str]: path segments without the root path segment, which is
               an empty string.
         """
+        # Joining the path segments prefixes the path with the path separator, hence
+        # a relative path needs to be made absolute.
+        path = os.path.abspath(path)
+
         # Split the path with the path separator and remove empty path segments.
         return list(filter(None, path.split(os.path.sep)))
-- 
2.43.0


From 73f0917187f4f765b04a424804f74ae36d867e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:52 +0000
Subject: [PATCH 079/111] fix: find the CIM repository files with the file
 system helper

---
 dtformats/wmi_repository.py | 140 ++++++++++++++++++------------------
 1 file changed, 71 insertions(+), 69 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 086c252..2dfe10f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1,6 +1,5 @@
 """WMI Common Information Model (CIM) repository files."""
 
-import glob
 import hashlib
 import logging
 import os
@@ -322,14 +321,19 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
 
     _KEY_SEGMENT_SEPARATOR = "\\"
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes an index binary-tree file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self._unavailable_page_numbers = set([0, 0xFFFFFFFF])
 
     def _DebugPrintPageBody(self, page_body):
@@ -652,14 +656,19 @@ class MappingFile(data_format.BinaryDataFile):
         custom_format_callbacks={"page_number": "_FormatIntegerAsPageNumber"},
     )
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a mappings file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self._mapping_table1 = None
         self._mapping_table2 = None
         self._unavailable_page_numbers = set([0xFFFFFFFF])
@@ -1124,14 +1133,19 @@ class RepositoryFile(data_format.BinaryDataFile):
         ("footer", "Footer", "_FormatDataInHexadecimal"),
     ]
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a repository file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
@@ -3477,26 +3491,27 @@ class CIMRepository(data_format.BinaryDataFormat):
         if self._output_writer:
             self._output_writer.WriteText(text)
 
-    def _FormatFilenameAsGlob(self, filename):
-        """Formats the filename as a case-insensitive glob.
+    def _FindFile(self, path, filename):
+        """Finds a file of the CIM repository, irrespective of case.
 
         Args:
+          path (str): path to the CIM repository.
           filename (str): name of the file.
 
         Returns:
-          str: case-insensitive glob of representation the filename.
+          str: path of the file or None if not available.
+
+        Raises:
+          OSError: if the directory of the CIM repository cannot be listed.
         """
-        glob_parts = []
-        for character in filename:
-            if character.isalpha():
-                character_upper = character.upper()
-                character_lower = character.lower()
-                glob_part = f"[{character_upper:s}{character_lower:s}]"
-            else:
-                glob_part = character
-            glob_parts.append(glob_part)
+        path_segments = self._file_system_helper.SplitPath(path)
+        path = self._file_system_helper.JoinPath(path_segments)
 
-        return "".join(glob_parts)
+        for name in sorted(self._file_system_helper.ListDirectory(path)):
+            if name.lower() == filename:
+                return self._file_system_helper.JoinPath(path_segments + [name])
+
+        return None
 
     def _GetActiveMappingFile(self, path):
         """Retrieves the active mapping file.
@@ -3534,23 +3549,23 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob = self._FormatFilenameAsGlob(
-                f"mapping{mapping_file_number:d}.map"
+            mapping_file_path = self._FindFile(
+                path, f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([glob.escape(path), filename_as_glob])
-            mapping_file_glob = glob.glob(path_with_glob)
-            if not mapping_file_glob:
+            if not mapping_file_path:
                 continue
 
             if self._debug:
-                self._DebugPrintText(f"Reading: {mapping_file_glob[0]:s}\n")
+                self._DebugPrintText(f"Reading: {mapping_file_path:s}\n")
 
             mapping_file = MappingFile(
-                debug=self._debug, output_writer=self._output_writer
+                debug=self._debug,
+                file_system_helper=self._file_system_helper,
+                output_writer=self._output_writer,
             )
             # TODO: change to only read limited information.
             # The file is closed since only the mapping tables are used.
-            mapping_file.Open(mapping_file_glob[0])
+            mapping_file.Open(mapping_file_path)
             mapping_file.Close()
 
             if (
@@ -3934,22 +3949,19 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob = self._FormatFilenameAsGlob("index.btr")
-        index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [glob.escape(path), filename_as_glob]
-        )
-
-        index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
+        index_binary_tree_file_path = self._FindFile(path, "index.btr")
         if not index_binary_tree_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {index_binary_tree_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {index_binary_tree_file_path:s}\n")
 
         index_binary_tree_file = IndexBinaryTreeFile(
-            debug=self._debug, output_writer=self._output_writer
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
         )
-        index_binary_tree_file.Open(index_binary_tree_file_path[0])
+        index_binary_tree_file.Open(index_binary_tree_file_path)
 
         return index_binary_tree_file
 
@@ -3963,19 +3975,20 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([glob.escape(path), filename_as_glob])
-
-        mapping_file_path = glob.glob(mapping_file_glob)
+        mapping_file_path = self._FindFile(path, filename)
         if not mapping_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {mapping_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {mapping_file_path:s}\n")
 
-        mapping_file = MappingFile(debug=self._debug, output_writer=self._output_writer)
+        mapping_file = MappingFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
         # The file is closed since only the mapping tables are used.
-        mapping_file.Open(mapping_file_path[0])
+        mapping_file.Open(mapping_file_path)
         mapping_file.Close()
 
         return mapping_file
@@ -3989,17 +4002,11 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
-        mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [glob.escape(path), filename_as_glob]
-        )
-
-        mapping_version_file_path = glob.glob(mapping_version_file_glob)
+        mapping_version_file_path = self._FindFile(path, "mapping.ver")
         if not mapping_version_file_path:
             return None
 
-        # pylint: disable=consider-using-with
-        return open(mapping_version_file_path[0], "rb")
+        return self._file_system_helper.OpenFileByPath(mapping_version_file_path)
 
     def _OpenObjectsDataFile(self, path):
         """Opens an objects data file.
@@ -4010,22 +4017,19 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob = self._FormatFilenameAsGlob("objects.data")
-        objects_data_file_glob = self._file_system_helper.JoinPath(
-            [glob.escape(path), filename_as_glob]
-        )
-
-        objects_data_file_path = glob.glob(objects_data_file_glob)
+        objects_data_file_path = self._FindFile(path, "objects.data")
         if not objects_data_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {objects_data_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {objects_data_file_path:s}\n")
 
         objects_data_file = ObjectsDataFile(
-            debug=self._debug, output_writer=self._output_writer
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
         )
-        objects_data_file.Open(objects_data_file_path[0])
+        objects_data_file.Open(objects_data_file_path)
 
         return objects_data_file
 
@@ -4038,21 +4042,19 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
-        repository_file_glob = self._file_system_helper.JoinPath(
-            [glob.escape(path), filename_as_glob]
-        )
-        repository_file_path = glob.glob(repository_file_glob)
+        repository_file_path = self._FindFile(path, "cim.rep")
         if not repository_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {repository_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {repository_file_path:s}\n")
 
         repository_file = RepositoryFile(
-            debug=self._debug, output_writer=self._output_writer
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
         )
-        repository_file.Open(repository_file_path[0])
+        repository_file.Open(repository_file_path)
 
         return repository_file
 
-- 
2.43.0


From f8e8e8b5ef5d2df4b350384af53fd78637234d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:56 +0000
Subject: [PATCH 080/111] fix: report a missing cim.rep file as a parse error

---
 dtformats/wmi_repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2dfe10f..7d5ef44 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4400,6 +4400,8 @@ class CIMRepository(data_format.BinaryDataFormat):
             self.format_version = "2.0"
 
             self._repository_file = self._OpenRepositoryFile(path)
+            if not self._repository_file:
+                raise errors.ParseError("Missing repository file.")
         else:
             index_mapping_file = self._OpenMappingFile(path, "index.map")
             if not index_mapping_file:
-- 
2.43.0


From 033939329fb114f4459f484ed8688284b5a78e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:59 +0000
Subject: [PATCH 081/111] fix: read a Chrome Cache with the file system helper

---
 dtformats/chrome_cache.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index e7a4ff6..6006f71 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -216,14 +216,19 @@ class DataBlockFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC104CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a Chrome Cache data block file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self.block_size = None
         self.format_version = None
         self.number_of_entries = None
@@ -458,14 +463,19 @@ class IndexFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC103CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a Chrome Cache index file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self._number_of_table_entries = 0
         self.creation_time = None
         self.format_version = None
@@ -674,7 +684,11 @@ class ChromeCacheParser:
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
-        index_file = IndexFile(debug=self._debug, output_writer=self._output_writer)
+        index_file = IndexFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
         index_file.Open(index_file_path)
 
         data_block_files = {}
@@ -695,7 +709,9 @@ class ChromeCacheParser:
 
                     else:
                         data_block_file = DataBlockFile(
-                            debug=self._debug, output_writer=self._output_writer
+                            debug=self._debug,
+                            file_system_helper=self._file_system_helper,
+                            output_writer=self._output_writer,
                         )
                         data_block_file.Open(data_block_file_path)
 
@@ -758,7 +774,7 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the file cannot be read.
         """
-        with open(path, "rb") as file_object:
+        with self._file_system_helper.OpenFileByPath(path) as file_object:
             signature_data = file_object.read(4)
 
             try:
@@ -770,11 +786,15 @@ class ChromeCacheParser:
 
             if signature == DataBlockFile.SIGNATURE:
                 chrome_cache_file = DataBlockFile(
-                    debug=self._debug, output_writer=self._output_writer
+                    debug=self._debug,
+                    file_system_helper=self._file_system_helper,
+                    output_writer=self._output_writer,
                 )
             elif signature == IndexFile.SIGNATURE:
                 chrome_cache_file = IndexFile(
-                    debug=self._debug, output_writer=self._output_writer
+                    debug=self._debug,
+                    file_system_helper=self._file_system_helper,
+                    output_writer=self._output_writer,
                 )
             else:
                 raise errors.ParseError(f"Unsupported signature: 0x{signature:08x}")
-- 
2.43.0


From d249df0d39431c34d6d37c583ac9266baec99324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:04 +0000
Subject: [PATCH 082/111] fix: read a tracev3 file near the root of the file
 system

---
 dtformats/unified_logging.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index a77c6d5..99cd25b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4984,16 +4984,12 @@ class TraceV3File(data_format.BinaryDataFile):
         # Remove the filename from the path.
         path_segments.pop(-1)
 
-        lower_last_path_segment = path_segments[-1].lower()
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
-
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
+        lower_last_path_segment = path_segments[-1].lower() if path_segments else ""
+        for _ in range(2):
+            if path_segments and not lower_last_path_segment.endswith(".logarchive"):
+                path_segments.pop(-1)
+                if path_segments:
+                    lower_last_path_segment = path_segments[-1].lower()
 
         if lower_last_path_segment.endswith(".logarchive"):
             path_segments.append("dsc")
-- 
2.43.0


From 43c6925083165ae8839b30d990c421407f548fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:57 +0000
Subject: [PATCH 083/111] fix: print the USN records with the USN journal
 script

---
 scripts/usn_journal.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/scripts/usn_journal.py b/scripts/usn_journal.py
index 90fffe0..fab8f81 100755
--- a/scripts/usn_journal.py
+++ b/scripts/usn_journal.py
@@ -62,13 +62,15 @@ def Main():
     )
     usn_records.Open(options.source)
 
-    output_writer.WriteText("USN journal records information:")
-    output_writer.WriteText(
-        ",".join(["Date and time", "Name", "File reference", "Parent file reference"])
+    output_writer.WriteText("USN journal records information:\n")
+    header = ",".join(
+        ["Date and time", "Name", "File reference", "Parent file reference"]
     )
+    output_writer.WriteText(f"{header:s}\n")
+
     for usn_record in usn_records.ReadRecords():
         # pylint: disable=protected-access
-        date_time = usn_record._FormatIntegerAsFiletime(usn_record.timestamp)
+        date_time, _ = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
 
         mft_entry = usn_record.file_reference & ((1 << 48) - 1)
         sequence_number = usn_record.file_reference >> 48
@@ -78,11 +80,10 @@ def Main():
         sequence_number = usn_record.parent_file_reference >> 48
         parent_file_reference = f"{mft_entry:d}-{sequence_number:d}"
 
-        output_writer.WriteText(
-            ",".join(
-                [date_time, usn_record.name, file_reference, parent_file_reference]
-            )
+        line = ",".join(
+            [date_time, usn_record.name, file_reference, parent_file_reference]
         )
+        output_writer.WriteText(f"{line:s}\n")
 
     usn_records.Close()
 
-- 
2.43.0


From 781c16888b62d680797814a18c0c5dde0496860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 084/111] fix: report a missing metadata item with the
 Spotlight store script

---
 scripts/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 7bdffdf..1c74ace 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -347,7 +347,7 @@ def Main():
 
                     table_view.AddRow([name, f"= {value_string:s}"])
 
-            table_view.Write(output_writer)
+                table_view.Write(output_writer)
 
         spotlight_store_database.Close()
 
-- 
2.43.0


From 5d9befd22e1e76086dd1ee1efd9084941de3eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:39 +0000
Subject: [PATCH 085/111] fix: escape all strings of JSON output of the unified
 logging script

---
 scripts/unified_logging.py | 39 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 07e6988..c7bca20 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -3,8 +3,8 @@
 
 import argparse
 import heapq
+import json
 import logging
-import re
 import sys
 
 from dfdatetime import posix_time as dfdatetime_posix_time
@@ -85,6 +85,19 @@ def GetDateTimeString(timestamp):
     )
 
 
+def GetJSONString(string):
+    """Determines the string with the characters escaped that JSON requires.
+
+    Args:
+      string (str): string.
+
+    Returns:
+      str: escaped string, without surrounding quotes.
+    """
+    json_string = json.dumps(string, ensure_ascii=False)
+    return json_string[1:-1].replace("/", "\\/")
+
+
 def Main():
     """The main program function.
 
@@ -241,8 +254,6 @@ def Main():
         for log_entry in unified_logging_file.ReadLogEntries():
             log_entries_heap.PushLogEntry(log_entry)
 
-        escape_regex = re.compile(r'([\\/"])', re.MULTILINE)
-
         if options.format == "json":
             print("[{")
         else:
@@ -264,18 +275,16 @@ def Main():
 
             if options.format == "json":
                 boot_identifier = str(log_entry.boot_identifier).upper()
-                category = log_entry.category or ""
+                category = GetJSONString(log_entry.category or "")
                 event_type = log_entry.event_type or ""
-                sub_system = log_entry.sub_system or ""
+                sub_system = GetJSONString(log_entry.sub_system or "")
 
                 event_message = log_entry.event_message or ""
                 event_message = event_message.rstrip()
                 if len(event_message) >= 1085:
                     event_message = "".join([event_message[:1087], "<…>"])
 
-                event_message = escape_regex.sub(r"\\\1", event_message)
-                event_message = event_message.replace("\n", "\\n")
-                event_message = event_message.replace("\t", "\\t")
+                event_message = GetJSONString(event_message)
 
                 creator_activity_identifier = log_entry.creator_activity_identifier
 
@@ -284,10 +293,7 @@ def Main():
                     # is empty.
                     format_string = ""
                 else:
-                    format_string = log_entry.format_string or ""
-                    format_string = escape_regex.sub(r"\\\1", format_string)
-                    format_string = format_string.replace("\n", "\\n")
-                    format_string = format_string.replace("\t", "\\t")
+                    format_string = GetJSONString(log_entry.format_string or "")
 
                 process_image_identifier = ""
                 if log_entry.process_image_identifier:
@@ -295,8 +301,7 @@ def Main():
                         log_entry.process_image_identifier
                     ).upper()
 
-                process_image_path = log_entry.process_image_path or ""
-                process_image_path = escape_regex.sub(r"\\\1", process_image_path)
+                process_image_path = GetJSONString(log_entry.process_image_path or "")
 
                 sender_image_identifier = ""
                 if log_entry.sender_image_identifier:
@@ -304,9 +309,7 @@ def Main():
                         log_entry.sender_image_identifier
                     ).upper()
 
-                sender_image_path = log_entry.sender_image_path or ""
-                sender_image_path = sender_image_path.replace('"', '\\"')
-                sender_image_path = sender_image_path.replace("/", "\\/")
+                sender_image_path = GetJSONString(log_entry.sender_image_path or "")
 
                 if event_type == "timesyncEvent":
                     lines = [
@@ -458,7 +461,7 @@ def Main():
                         )
 
                     elif log_entry.signpost_identifier is not None:
-                        signpost_name = log_entry.signpost_name or ""
+                        signpost_name = GetJSONString(log_entry.signpost_name or "")
 
                         lines.append(f'  "signpostName" : "{signpost_name:s}",')
 
-- 
2.43.0


From e9a0ec95a6756998d8958d916fb4b8811b48bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 086/111] fix: print an empty JSON list for a tracev3 file
 without log entries

---
 scripts/unified_logging.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index c7bca20..96be169 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -255,17 +255,20 @@ def Main():
             log_entries_heap.PushLogEntry(log_entry)
 
         if options.format == "json":
-            print("[{")
+            print("[", end="")
         else:
             print(
                 "Timestamp                       Thread     Type        "
                 "Activity             PID    TTL"
             )
 
+        has_log_entries = False
         parent_per_activity_identifier = {}
         for index, log_entry in enumerate(log_entries_heap.PopLogEntries()):
-            if options.format == "json" and index > 0:
-                print("},{")
+            if options.format == "json":
+                print("},{" if index > 0 else "{")
+
+            has_log_entries = True
 
             activity_identifier = log_entry.activity_identifier or 0
             date_time_string = GetDateTimeString(log_entry.timestamp)
@@ -540,7 +543,7 @@ def Main():
                 )
 
         if options.format == "json":
-            print("}]", end="")
+            print("}]" if has_log_entries else "]", end="")
 
     unified_logging_file.Close()
 
-- 
2.43.0


From 7d9f97158bf1691555ab20b313fd63c3f16a7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:04 +0000
Subject: [PATCH 087/111] fix: print log entries that have no event type

---
 scripts/unified_logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 96be169..2fb1fed 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -534,11 +534,12 @@ def Main():
                 event_message_parts.append(log_entry.event_message)
                 event_message = " ".join(event_message_parts)
 
+                event_type = log_entry.event_type or ""
                 ttl = log_entry.ttl or 0
 
                 print(
                     f"{date_time_string:s}\t0x{thread_identifier:<8x}\t"
-                    f"{log_entry.event_type:11s}\t0x{activity_identifier:<18x}\t"
+                    f"{event_type:11s}\t0x{activity_identifier:<18x}\t"
                     f"{process_identifier:<6d}\t{ttl:<4d}\t{event_message:s}"
                 )
 
-- 
2.43.0


From 08f350b227e32302f5bba4cf41515e6deb7ea26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:50 +0000
Subject: [PATCH 088/111] fix: hash CPIO archives with more than one file entry

---
 scripts/cpio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 189ecf3..252842b 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -110,7 +110,10 @@ class CPIOArchiveFileHasher:
             cpio_archive_file = cpio.CPIOArchiveFile(debug=self._debug)
             cpio_archive_file.ReadFileObject(cpio_file_object)
 
-            for file_entry in sorted(cpio_archive_file.GetFileEntries()):
+            for file_entry in sorted(
+                cpio_archive_file.GetFileEntries(),
+                key=lambda file_entry: file_entry.path,
+            ):
                 if file_entry.data_size == 0:
                     continue
 
-- 
2.43.0


From 6c179c4bb7f5e05a21940ab4661159388a823970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:11 +0000
Subject: [PATCH 089/111] fix: hash every CPIO archive of a file and compressed
 ones

---
 scripts/cpio.py | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 252842b..2d862fe 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -85,27 +85,21 @@ class CPIOArchiveFileHasher:
                 self._output_writer.WriteText(
                     f"Unsupported file type at offset: 0x{file_offset:08x}.\n"
                 )
-                return
-
-            cpio_file_object = None
-
-            if file_type == "cpio":
-                file_object.seek(file_offset, os.SEEK_SET)
-                cpio_file_object = file_object
-            elif file_type in ("bzip", "gzip", "xz"):
-                compressed_data_size = file_size - file_offset
-                compressed_data_file_object = data_range.DataRange(
-                    file_object, data_offset=file_offset, data_size=compressed_data_size
-                )
-
-                if file_type == "bzip":
-                    cpio_file_object = bz2.BZ2File(compressed_data_file_object)
-                elif file_type == "gzip":
-                    cpio_file_object = gzip.GzipFile(
-                        fileobj=compressed_data_file_object
-                    )  # pylint: disable=no-member
-                elif file_type == "xz" and lzma:
-                    cpio_file_object = lzma.LZMAFile(compressed_data_file_object)
+                break
+
+            cpio_file_object = data_range.DataRange(
+                file_object,
+                data_offset=file_offset,
+                data_size=file_size - file_offset,
+            )
+            if file_type == "bzip":
+                cpio_file_object = bz2.BZ2File(cpio_file_object)
+            elif file_type == "gzip":
+                cpio_file_object = gzip.GzipFile(
+                    fileobj=cpio_file_object
+                )  # pylint: disable=no-member
+            elif file_type == "xz" and lzma:
+                cpio_file_object = lzma.LZMAFile(cpio_file_object)
 
             cpio_archive_file = cpio.CPIOArchiveFile(debug=self._debug)
             cpio_archive_file.ReadFileObject(cpio_file_object)
@@ -126,13 +120,17 @@ class CPIOArchiveFileHasher:
                 digest_hash = sha256_context.hexdigest()
                 self._output_writer.WriteText(f"{digest_hash:s}\t{file_entry.path:s}\n")
 
-            file_offset += cpio_archive_file.size
+            if file_type != "cpio":
+                # The compressed data is read up to the end of the file.
+                file_offset = file_size
+            else:
+                file_offset += cpio_archive_file.size
 
             padding_size = file_offset % 16
             if padding_size > 0:
                 file_offset += 16 - padding_size
 
-            cpio_archive_file.Close()
+        file_object.close()
 
 
 def Main():
-- 
2.43.0


From be61c9a0c36a66310bb42c99cf0cd39041cd2d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:26 +0000
Subject: [PATCH 090/111] fix: read LevelDB and IndexedDB files of an image
 with their scripts

---
 scripts/indexeddb.py |  4 +++-
 scripts/leveldb.py   | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 659fabe..318bfd2 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -77,7 +77,9 @@ def Main():
         return False
 
     indexeddb_file = indexeddb.IndexedDBDatabaseTableFile(
-        debug=options.debug, output_writer=output_writer
+        debug=options.debug,
+        file_system_helper=file_system_helper,
+        output_writer=output_writer,
     )
 
     indexeddb_file.Open(options.source)
diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 770a43d..f4274e5 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -93,17 +93,23 @@ def Main():
 
     if file_signature == b"\x57\xfb\x80\x8b\x24\x75\x47\xdb":
         leveldb_file = leveldb.LevelDBDatabaseTableFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     elif path_segments[-1].startswith("MANIFEST"):
         leveldb_file = leveldb.LevelDBDatabaseDescriptorFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     else:
         leveldb_file = leveldb.LevelDBDatabaseLogFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     leveldb_file.Open(options.source)
-- 
2.43.0


From 0328f8dc262f2aacb44ca934db5c9e910ec41904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 091/111] fix: print the content of a keychain table with an
 unnamed column

---
 scripts/keychain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/keychain.py b/scripts/keychain.py
index cf0ced9..3acbae1 100755
--- a/scripts/keychain.py
+++ b/scripts/keychain.py
@@ -130,7 +130,9 @@ def Main():
                 )
             )
 
-            print("\t".join([column.attribute_name for column in table.columns]))
+            print(
+                "\t".join([column.attribute_name or "NULL" for column in table.columns])
+            )
 
             for record in table.records:
                 record_values = []
-- 
2.43.0


From fdf8dc38451696c42ff3038c5ca768e95e36062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:42 +0000
Subject: [PATCH 092/111] fix: set the volume path of a Restore Point
 change.log file

---
 dtformats/rp_change_log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index df6eacd..05a6958 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -483,6 +483,8 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
                 f"Unsupported record type: {volume_path_record.record_type:d}"
             )
 
+        self.volume_path = volume_path_record.volume_path[:-1]
+
     def ReadFileObject(self, file_object):
         """Reads a Windows Restore Point change.log file-like object.
 
-- 
2.43.0


From ae58e43ae4cbcf2d85c9071ba04828cdbe19a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:47 +0000
Subject: [PATCH 093/111] fix: report missing data when hashing a CPIO archive

---
 scripts/cpio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 2d862fe..76050fc 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -62,6 +62,8 @@ class CPIOArchiveFileHasher:
         while file_offset < stat_object.st_size:
             file_object.seek(file_offset, os.SEEK_SET)
             signature_data = file_object.read(6)
+            if len(signature_data) < min(6, file_size - file_offset):
+                raise OSError(f"Missing data at offset: 0x{file_offset:08x}.")
 
             file_type = None
             if len(signature_data) > 2:
@@ -112,11 +114,16 @@ class CPIOArchiveFileHasher:
                     continue
 
                 sha256_context = hashlib.sha256()
+                hashed_data_size = 0
                 file_data = file_entry.read(4096)
                 while file_data:
                     sha256_context.update(file_data)
+                    hashed_data_size += len(file_data)
                     file_data = file_entry.read(4096)
 
+                if hashed_data_size != file_entry.data_size:
+                    raise OSError(f"Missing data of file entry: {file_entry.path:s}.")
+
                 digest_hash = sha256_context.hexdigest()
                 self._output_writer.WriteText(f"{digest_hash:s}\t{file_entry.path:s}\n")
 
-- 
2.43.0


From 18d36e845a4df8b51f58c308730428d261741496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 094/111] fix: format tracev3 values with any combination of
 flags, width and precision

---
 dtformats/unified_logging.py | 37 ++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 99cd25b..1894d79 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -265,12 +265,23 @@ class FormatStringOperator:
             precision = self.precision or ""
             width = self.width or ""
 
+            # The value of a "*" width is not part of the format string.
+            if width == "*":
+                width = ""
+
             python_specifier = self._PYTHON_SPECIFIERS.get(
                 self.specifier, self.specifier
             )
+            # Python requires the flags in a specific order and that "-" takes
+            # precedence over "0".
+            alignment = "<" if "-" in flags else ""
+            alternate_form = "#" if "#" in flags else ""
+            sign = "+" if "+" in flags else " " if " " in flags else ""
+            zero_padding = "0" if "0" in flags and not alignment else ""
+
             # Format "%3.3d" with 0 padding.
             if self.specifier == "d" and width and precision:
-                flags = "0"
+                alignment, alternate_form, sign, zero_padding = "", "", "", "0"
 
             # Ignore the precision of specifier "P" since it refers to the binary
             # data not the resulting string.
@@ -284,30 +295,36 @@ class FormatStringOperator:
             elif precision == ".*":
                 precision = ""
 
-            if python_specifier in ("d", "o", "x", "X"):
-                flags = flags.replace("-", "<")
-
+            if python_specifier in ("c", "d", "o", "x", "X"):
                 # Prevent: "ValueError: Precision not allowed in integer format
                 # specifier"
                 precision = ""
 
             elif python_specifier == "s":
-                if width and not flags:
-                    flags = ">"
-                else:
-                    flags = flags.replace("-", "<")
+                if width and not alignment:
+                    alignment = ">"
 
                 # Prevent: "%.0s" formatting as an empty string.
                 if precision == ".0":
                     precision = ""
 
+            # Prevent: "ValueError: Sign not allowed in string format specifier"
+            if python_specifier in ("c", "s"):
+                alternate_form, sign, zero_padding = "", "", ""
+
+            # Prevent: "%#p" formatting with a prefix twice.
+            if self.specifier == "p":
+                alternate_form = ""
+
+            flags = f"{alignment:s}{sign:s}{alternate_form:s}{zero_padding:s}"
+
             if self.specifier == "p":
                 self._format_string = (
-                    f"0x{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"0x{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
             else:
                 self._format_string = (
-                    f"{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
 
         return self._format_string
-- 
2.43.0


From 1405eb7d112e85e1dd9a1ab387004f84f98d2200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 095/111] fix: do not format dates that cannot be represented

---
 dtformats/data_format.py       | 8 ++++++++
 dtformats/spotlight_storedb.py | 8 +++++++-
 dtformats/unified_logging.py   | 5 +++++
 scripts/spotlight_storedb.py   | 4 ++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index e0f5a1e..d790f19 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -46,6 +46,9 @@ class BinaryDataFormat:
         "." if byte < 0x20 or byte > 0x7E else chr(byte) for byte in range(256)
     ]
 
+    # 9999-12-31 23:59:59
+    _MAXIMUM_POSIX_TIMESTAMP = 253402300799
+
     # Byte values that are considered non-printable characters.
     _NON_PRINTABLE_BYTE_VALUES = {value: f"\\x{value:02x}" for value in range(0, 0x20)}
     _NON_PRINTABLE_BYTE_VALUES.update(
@@ -127,6 +130,8 @@ class BinaryDataFormat:
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif value > self._MAXIMUM_POSIX_TIMESTAMP:
+            date_time_string = f"0x{value:08x}"
         else:
             date_time = dfdatetime_posix_time.PosixTime(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
@@ -406,6 +411,9 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if integer > self._MAXIMUM_POSIX_TIMESTAMP:
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index eb25465..8023862 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -430,6 +430,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         custom_format_callbacks={"signature": "_FormatStreamAsString"},
     )
 
+    # 0001-01-01 00:00:00 and 9999-12-31 23:59:59
+    _MINIMUM_TIMESTAMP = -63113904000
+    _MAXIMUM_TIMESTAMP = 252423993599
+
     def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a store database file.
 
@@ -465,13 +469,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif not self._MINIMUM_TIMESTAMP <= value <= self._MAXIMUM_TIMESTAMP:
+            date_time_string = f"{value:f}"
         else:
             date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
             else:
-                date_time_string = f"0x{value:08x}"
+                date_time_string = f"{value:f}"
 
         self._DebugPrintValue(description, date_time_string)
 
diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1894d79..47d4e19 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -565,6 +565,9 @@ class BooleanFormatStringDecoder(BaseFormatStringDecoder):
 class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
     """Date and time value in seconds format string decoder."""
 
+    # 9999-12-31 23:59:59
+    _MAXIMUM_TIMESTAMP = 253402300799
+
     def FormatValue(self, value, format_string_operator=None):
         """Formats a date and time value in seconds.
 
@@ -578,6 +581,8 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
           str: formatted date and time value in seconds.
         """
         integer_value = int.from_bytes(value, "little", signed=False)
+        if integer_value > self._MAXIMUM_TIMESTAMP:
+            return "<decode: unsupported value>"
 
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
         return date_time.CopyToDateTimeString()
diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 1c74ace..8085942 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -77,6 +77,10 @@ def GetDateTimeString(timestamp):
     if timestamp is None:
         return "YYYY-MM-DD hh:ss:mm +####"
 
+    # Only dates between 0001-01-01 and 9999-12-31 can be represented.
+    if not -63113904000 <= timestamp <= 252423993599:
+        return f"{timestamp:f}"
+
     date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=timestamp)
     iso8601_string = date_time.CopyToDateTimeStringISO8601()
     return "".join(
-- 
2.43.0


From f851ac4c839659ef33b0170854d16e4e345b4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 096/111] fix: do not fail on tracev3 characters and
 identifiers of another size

---
 dtformats/unified_logging.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 47d4e19..dfea105 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1614,6 +1614,12 @@ class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            # Note that a character is stored as an integer.
+            if specifier == "c":
+                integer_value &= 0xFF
+            elif specifier == "C" and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1752,6 +1758,12 @@ class SignpostTelemetryNumberFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            # Note that a character is stored as an integer.
+            if specifier == "c":
+                integer_value &= 0xFF
+            elif specifier == "C" and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1946,6 +1958,10 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
             ):
                 return f"{integer_value:x}"
 
+            # Note that a character is stored as an integer.
+            if format_string_operator.specifier == "c":
+                integer_value &= 0xFF
+
             format_string = format_string_operator.GetPythonFormatString()
         else:
             format_string = "{0:d}"
@@ -1967,6 +1983,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if len(value) != 16:
+            return "<decode: unsupported value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
-- 
2.43.0


From 4113ebad70f1a7b71edd009c0d10cfae01868235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 097/111] fix: keep the catalog of every iteration of tracev3
 log entries apart

---
 dtformats/unified_logging.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index dfea105..98f28cd 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5163,9 +5163,23 @@ class TraceV3File(data_format.BinaryDataFile):
                 self._BuildCatalogProcessInformationEntries(self._catalog)
 
             elif chunk_header.chunk_tag == self._CHUNK_TAG_CHUNK_SET:
-                yield from self._ReadChunkSet(
-                    self._file_object, file_offset, chunk_header, oversize_chunks
+                catalog = self._catalog
+                process_information_entries = (
+                    self._catalog_process_information_entries
                 )
+                strings_map = self._catalog_strings_map
+
+                for log_entry in self._ReadChunkSet(
+                    self._file_object, file_offset, chunk_header, oversize_chunks
+                ):
+                    yield log_entry
+
+                    # Another iteration can have read another catalog in between.
+                    self._catalog = catalog
+                    self._catalog_process_information_entries = (
+                        process_information_entries
+                    )
+                    self._catalog_strings_map = strings_map
             else:
                 raise errors.ParseError(
                     f"Unsupported chunk tag: 0x{chunk_header.chunk_tag:04x}."
-- 
2.43.0


From 5b5e2e5e27e9cf415f0e2d6ffe5ee7934b07f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 098/111] fix: do not end in an undocumented error on data
 sizes and offsets that cannot exist

---
 dtformats/data_format.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index d790f19..98290dc 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -46,6 +46,8 @@ class BinaryDataFormat:
         "." if byte < 0x20 or byte > 0x7E else chr(byte) for byte in range(256)
     ]
 
+    _LARGE_DATA_SIZE = 64 * 1024 * 1024
+
     # 9999-12-31 23:59:59
     _MAXIMUM_POSIX_TIMESTAMP = 253402300799
 
@@ -615,11 +617,24 @@ class BinaryDataFormat:
         if not file_object:
             raise ValueError("Missing file-like object.")
 
-        file_object.seek(file_offset, os.SEEK_SET)
-
         read_error = ""
 
         try:
+            if data_size < 0:
+                raise OverflowError(f"invalid data size: {data_size:d}")
+
+            # Prevent that more memory is allocated than the file contains data.
+            if data_size > self._LARGE_DATA_SIZE:
+                file_object.seek(0, os.SEEK_END)
+                remaining_size = file_object.tell() - file_offset
+                if data_size > remaining_size:
+                    raise OverflowError(
+                        f"missing data (remaining: {remaining_size:d}, requested: "
+                        f"{data_size:d})"
+                    )
+
+            file_object.seek(file_offset, os.SEEK_SET)
+
             data = file_object.read(data_size)
             read_count = len(data)
 
@@ -628,7 +643,7 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except OSError as exception:
+        except (OSError, OverflowError) as exception:
             read_error = f"{exception!s}"
 
         if read_error:
@@ -659,7 +674,7 @@ class BinaryDataFormat:
           ParseError: if the structure cannot be read.
           ValueError: if file-like object or data type map is missing.
         """
-        if not byte_stream:
+        if byte_stream is None:
             raise ValueError("Missing byte stream.")
 
         if not data_type_map:
-- 
2.43.0


From ed24185d8eb25538ccd2a7e5f9139317e37d6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 099/111] fix: do not end in an undocumented error on bookmark
 data of another type

---
 dtformats/bookmark_data.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..23bb318 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -112,6 +112,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
         Returns:
           list[str]: integers.
+
+        Raises:
+          ParseError: if the integers array cannot be read.
         """
         integers_array = []
 
@@ -120,6 +123,12 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
+            if not hasattr(data_record, "integer"):
+                raise errors.ParseError(
+                    f"Unsupported integers array entry data type: "
+                    f"0x{data_record.data_type:08x}."
+                )
+
             integers_array.append(data_record.integer)
 
         return integers_array
@@ -135,6 +144,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
         Returns:
           list[str]: strings.
+
+        Raises:
+          ParseError: if the strings array cannot be read.
         """
         strings_array = []
 
@@ -143,6 +155,12 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
+            if not hasattr(data_record, "string"):
+                raise errors.ParseError(
+                    f"Unsupported strings array entry data type: "
+                    f"0x{data_record.data_type:08x}."
+                )
+
             strings_array.append(data_record.string)
 
         return strings_array
@@ -234,6 +252,13 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
                     self._DebugPrintText("\n")
 
+            elif tagged_value.value_tag in (0x1004, 0x1005) and not hasattr(
+                data_record, "integers"
+            ):
+                raise errors.ParseError(
+                    f"Unsupported array data type: 0x{data_record.data_type:08x}."
+                )
+
             elif tagged_value.value_tag == 0x1004:
                 strings_array = self._ReadStringsArray(
                     file_object, header.data_area_offset, data_record.integers
@@ -259,6 +284,12 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                     self._DebugPrintText("\n")
 
             elif tagged_value.value_tag in (0x1010, 0x2020):
+                if not hasattr(data_record, "data"):
+                    raise errors.ParseError(
+                        f"Unsupported property flags data type: "
+                        f"0x{data_record.data_type:08x}."
+                    )
+
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
                 property_flags = self._ReadStructureFromByteStream(
                     data_record.data, 0, data_type_map, "Property flags"
-- 
2.43.0


From 476b2254f97532791261222731de79db64f22ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 100/111] fix: do not end in an undocumented error on BSM
 records without a trailer

---
 dtformats/bsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 4e093f6..dc99416 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -939,6 +939,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             if token.token_type == self._TRAILER_TOKEN_TYPE:
                 break
 
+        if token.token_type != self._TRAILER_TOKEN_TYPE:
+            raise errors.ParseError("Missing trailer token.")
+
         if token.record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
-- 
2.43.0


From 491e73a512438c5df791bb8ba360ca063ac70b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 101/111] fix: do not end in an undocumented error on Chrome
 Cache dates and addresses that cannot exist

---
 dtformats/chrome_cache.py | 41 ++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6006f71..2109b61 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -159,6 +159,12 @@ class CacheAddress:
                 f"file type: {file_type_description:s}, filename: {self.filename:s})"
             )
 
+        if not self.filename:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         # TODO: print reserved bits.
         return (
             f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
@@ -347,9 +353,13 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -532,9 +542,13 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -695,6 +709,9 @@ class ChromeCacheParser:
         try:
             have_all_data_block_files = True
             for cache_address in index_file.index_table.values():
+                if not cache_address.filename:
+                    continue
+
                 if cache_address.filename not in data_block_files:
                     data_block_file_path = self._file_system_helper.JoinPath(
                         path_segments + [cache_address.filename]
@@ -744,9 +761,15 @@ class ChromeCacheParser:
 
                         # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
-                        date_string = datetime.datetime(
-                            1601, 1, 1
-                        ) + datetime.timedelta(microseconds=cache_entry.creation_time)
+                        try:
+                            date_string = datetime.datetime(
+                                1601, 1, 1
+                            ) + datetime.timedelta(
+                                microseconds=cache_entry.creation_time
+                            )
+                        except OverflowError:
+                            date_string = f"0x{cache_entry.creation_time:08x}"
+
                         # print(f"Creation time\t: {date_string!s}")
 
                         # print("")
-- 
2.43.0


From 1064b2027e9baeff59bdf6e76fb3db98330acc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 102/111] fix: do not end in an undocumented error on CUPS IPP
 strings and date-times that cannot exist

---
 dtformats/cups_ipp.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 77fdd70..f26cd07 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,15 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            value = self._ReadStringValue(
+                attribute.value_data, self._last_charset_attribute
+            )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            value = self._ReadStringValue(attribute.value_data, "ascii")
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
@@ -275,9 +277,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unable to parse date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
@@ -324,6 +331,26 @@ class CupsIppFile(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("cups_ipp_header")
             self._DebugPrintStructureObject(header, debug_info)
 
+    def _ReadStringValue(self, byte_stream, encoding):
+        """Reads a string value.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          encoding (str): encoding of the string.
+
+        Returns:
+          str: string value.
+
+        Raises:
+          ParseError: when the string value cannot be read.
+        """
+        try:
+            return byte_stream.decode(encoding)
+        except (LookupError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to parse string value with error: {exception!s}"
+            )
+
     def ReadFileObject(self, file_object):
         """Reads a CUPS Internet Printing Protocol (IPP) file-like object.
 
-- 
2.43.0


From 60172cbcadbb1e3edbea284a527e876bff5f3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 103/111] fix: do not end in an undocumented error on keychain
 names and references that cannot exist

---
 dtformats/keychain.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index c47f701..20ac03a 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -458,10 +458,13 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         attribute_value_offset = (
                             attribute_value_offsets[index] - record_data_offset - 1
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
+                        while data_offsets and data_offsets[0] <= attribute_value_offset:
                             data_offsets.pop(0)
+
+                        if data_offsets:
                             attribute_value_end_offset = data_offsets[0]
+                        else:
+                            attribute_value_end_offset = len(record_data)
 
                     description = (
                         f"Attribute value: {index:d} ({column.attribute_name:s}) data"
@@ -694,6 +697,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
@@ -707,7 +713,13 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_name = attribute_values_data[
                 attribute_value_offset : attribute_value_offset + 4
             ]
-            attribute_name = attribute_name.decode("ascii")
+
+            try:
+                attribute_name = attribute_name.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode attribute name with error: {exception!s}"
+                )
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -831,7 +843,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        try:
+            relation_name = record_values.relation_name.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode relation name with error: {exception!s}"
+            )
 
         if self._debug:
             self._DebugPrintValue(
-- 
2.43.0


From f81a36447d5dcd27af75dd913a15991181cd0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 104/111] fix: do not end in an undocumented error on truncated
 IndexedDB key prefixes and values

---
 dtformats/indexeddb.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..8e0a82f 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -40,10 +41,22 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
 
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
+
+        Raises:
+          ParseError: if the key prefix cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing key prefix")
+
         byte_value = data[0]
         bytes_read = 1
 
+        key_prefix_size = 4 + (
+            (byte_value >> 5) + ((byte_value & 0x1F) >> 2) + (byte_value & 0x03)
+        )
+        if key_prefix_size > len(data):
+            raise errors.ParseError("Invalid key prefix value out of bounds")
+
         database_identifier = 0
         object_store_identifier = 0
         index_identifier = 0
@@ -87,6 +100,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
-- 
2.43.0


From ec849031675fae3cb21c3514c009229a4ec5b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 105/111] fix: do not end in an undocumented error on Safari
 cookie dates that cannot be represented

---
 dtformats/safari_cookies.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 9bfad79..a4571e6 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,30 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
-        )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
-        )
+        value_string = self._FormatCocoaTimestamp(record_header.expiration_time)
+        self._DebugPrintValue("Expiration time", value_string)
+        value_string = self._FormatCocoaTimestamp(record_header.creation_time)
+        self._DebugPrintValue("Creation time", value_string)
         self._DebugPrintText("\n")
 
+    def _FormatCocoaTimestamp(self, timestamp):
+        """Formats a Cocoa timestamp.
+
+        Args:
+          timestamp (float): number of seconds since January 1, 2001, 00:00:00 UTC.
+
+        Returns:
+          str: formatted Cocoa timestamp.
+        """
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(timestamp)
+            )
+        except (OverflowError, ValueError):
+            return f"{timestamp:f}"
+
+        return f"{date_time!s} ({timestamp:f})"
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
-- 
2.43.0


From 8248fd2ad260ad9d3537511ac41aac58991be2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 106/111] fix: do not end in an undocumented error on tracev3
 indexes, sizes and timebases out of bounds

---
 dtformats/unified_logging.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 98f28cd..9bda70f 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2328,6 +2328,11 @@ class DSCFile(data_format.BinaryDataFile):
             )
         )
         for dsc_range in self.ranges:
+            if dsc_range.uuid_index >= len(self.uuids):
+                raise errors.ParseError(
+                    f"Invalid UUID descriptor index: {dsc_range.uuid_index:d}."
+                )
+
             dsc_uuid = self.uuids[dsc_range.uuid_index]
 
             dsc_range.image_identifier = dsc_uuid.image_identifier
@@ -2699,6 +2704,15 @@ class TraceV3File(data_format.BinaryDataFile):
             process_information_entry.main_uuid = None
             process_information_entry.dsc_uuid = None
 
+            number_of_uuids = len(catalog.uuids)
+            if (
+                process_information_entry.main_uuid_index >= number_of_uuids
+                or process_information_entry.dsc_uuid_index >= number_of_uuids
+            ):
+                raise errors.ParseError(
+                    "Invalid process information entry UUID index value out of bounds."
+                )
+
             if process_information_entry.main_uuid_index >= 0:
                 process_information_entry.main_uuid = catalog.uuids[
                     process_information_entry.main_uuid_index
@@ -2719,7 +2733,7 @@ class TraceV3File(data_format.BinaryDataFile):
                     )
                     self._DebugPrintText(
                         f"Identifier: {sub_system_entry.identifier:d}, "
-                        f"Sub system: {sub_system:s}, Category: {category:s}\n"
+                        f"Sub system: {sub_system!s}, Category: {category!s}\n"
                     )
 
                 self._DebugPrintText("\n")
@@ -3710,13 +3724,20 @@ class TraceV3File(data_format.BinaryDataFile):
 
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
+            # LZ4 can compress data with a ratio of at most 255:1.
+            if (
+                lz4_block_header.uncompressed_data_size
+                > 255 * lz4_block_header.compressed_data_size + 64
+            ):
+                raise errors.ParseError("Invalid LZ4 uncompressed data size")
+
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
             try:
                 uncompressed_data = lz4.block.decompress(
                     chunk_data[12:end_of_data_offset],
                     uncompressed_size=lz4_block_header.uncompressed_data_size,
                 )
-            except lz4.block.LZ4BlockError as exception:
+            except (lz4.block.LZ4BlockError, OverflowError) as exception:
                 raise errors.ParseError(
                     f"Unable to decompress LZ4 block with error: {exception!s}"
                 )
@@ -4930,6 +4951,9 @@ class TraceV3File(data_format.BinaryDataFile):
 
         Args:
           boot_identifier (str): boot identifier (UUID).
+
+        Raises:
+          ParseError: if the timesync records cannot be read.
         """
         self._timesync_boot_record = None
         self._timesync_sync_records = []
@@ -4967,6 +4991,9 @@ class TraceV3File(data_format.BinaryDataFile):
                 timesync_file.Close()
 
         if self._timesync_boot_record:
+            if not self._timesync_boot_record.timebase_denominator:
+                raise errors.ParseError("Invalid timesync timebase denominator: 0.")
+
             self._timesync_timebase = (
                 self._timesync_boot_record.timebase_numerator
                 / self._timesync_boot_record.timebase_denominator
@@ -5083,6 +5110,9 @@ class TraceV3File(data_format.BinaryDataFile):
 
         self._first_chunk_offset = file_offset
 
+        if not header_chunk.timebase_denominator:
+            raise errors.ParseError("Invalid timebase denominator: 0.")
+
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = (
             header_chunk.timebase_numerator / header_chunk.timebase_denominator
-- 
2.43.0


From 6ba8d3b343ce2f1b834fa58469edbb2f972c0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 107/111] fix: do not end in an undocumented error on WMI
 repositories with missing or mismatched parts

---
 dtformats/wmi_repository.py | 56 ++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 7d5ef44..adbfa8a 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -110,6 +110,13 @@ class ClassValueDataMap:
                         f"{class_definition.name:s}"
                     )
 
+                if not isinstance(type_qualifier, str):
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier for property: "
+                        f"{property_definition.name:s} of class: "
+                        f"{class_definition.name:s}"
+                    )
+
                 value_data_size = self._PROPERTY_TYPE_VALUE_DATA_SIZE.get(
                     property_definition.value_data_type, 4
                 )
@@ -188,7 +195,16 @@ class MappingTable:
 
         Returns:
           int: (physical) page number.
+
+        Raises:
+          ParseError: if the mapped page number is out of bounds.
         """
+        if not 0 <= mapped_page_number < len(self._mapping_table.entries):
+            raise errors.ParseError(
+                f"Invalid mapped page number: {mapped_page_number:d} value out of "
+                f"bounds."
+            )
+
         mapping_table_entry = self._mapping_table.entries[mapped_page_number]
         return mapping_table_entry.page_number
 
@@ -477,6 +493,12 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             for page_key_segments in index_binary_tree_page.page_key_segments:
                 key_segments = []
                 for segment_index in page_key_segments:
+                    if segment_index >= len(index_binary_tree_page.page_values):
+                        raise errors.ParseError(
+                            f"Invalid page key segment index: {segment_index:d} value "
+                            f"out of bounds."
+                        )
+
                     page_value = index_binary_tree_page.page_values[segment_index]
                     key_segments.append(page_value)
 
@@ -1868,7 +1890,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     instance = self._ReadInstance(file_object, value_node_offset)
-                    yield instance
+                    if instance:
+                        yield instance
 
         if root_node.sub_node_offset > 40 and root_node.sub_node_type in (9, 10):
             for value_node_offset in self._ReadChildObjectsTree(
@@ -1926,6 +1949,9 @@ class RepositoryFile(data_format.BinaryDataFile):
         class_definition = self._ReadClassDefinition(
             file_object, root_node.class_definition_branch_node_offset
         )
+        if not class_definition:
+            return None
+
         node_cell = self._ReadNodeCell(
             file_object, instance_branch_node.instance_leaf_node_offset - 4
         )
@@ -1982,7 +2008,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            yield instance
+            if instance:
+                yield instance
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
@@ -2055,6 +2082,9 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the namespace instances cannot be read.
         """
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
@@ -2063,7 +2093,12 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
+            if not instance:
+                return
+
             name_property = instance.properties.get("Name")
+            if not isinstance(name_property, str):
+                raise errors.ParseError("Missing name of namespace instance.")
 
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
@@ -3201,6 +3236,8 @@ class Instance(CIMObject):
                     f"property_value_{property_value_data_map.type_qualifier:s}"
                 )
                 data_type_map = self._GetDataTypeMap(data_type_map_name)
+                if not data_type_map:
+                    raise errors.ParseError(f"Unsupported {description:s}.")
 
                 property_value = self._ReadStructureFromByteStream(
                     property_values_data[property_map_offset:],
@@ -3873,7 +3910,6 @@ class CIMRepository(data_format.BinaryDataFormat):
                         f"{record_identifier:d}."
                     )
 
-
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
             else:
@@ -4192,7 +4228,11 @@ class CIMRepository(data_format.BinaryDataFormat):
             yield name_hash, object_record
 
     def _ReadNamespacesFromObjectRecords(self):
-        """Reads namespaces from object records."""
+        """Reads namespaces from object records.
+
+        Raises:
+          ParseError: if the namespaces cannot be read.
+        """
         class_name_hash = self._GetHashFromString("__NAMESPACE")
 
         object_record_values = set()
@@ -4211,6 +4251,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = key_segment[3:].lower()
             parent_namespaces[namespace_hash] = True
 
+            if len(key_segments) < 3:
+                continue
+
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
                 continue
@@ -4255,6 +4298,8 @@ class CIMRepository(data_format.BinaryDataFormat):
 
                 for instance in instances:
                     name_property = instance.properties.get("Name")
+                    if not isinstance(name_property, str):
+                        raise errors.ParseError("Missing name of namespace instance.")
 
                     namespace = "\\".join([parent_namespace, name_property])
 
@@ -4348,6 +4393,9 @@ class CIMRepository(data_format.BinaryDataFormat):
         data_type, _, mapped_page_number, record_identifier, data_size = (
             self._GetObjectRecordValuesFromKey(key_segments[-1])
         )
+        if data_type is None:
+            return None
+
         return self._GetObjectRecord(
             data_type, mapped_page_number, record_identifier, data_size
         )
-- 
2.43.0


From 94ea7d0b4f05fd4f5851eeed2f4d2b643333c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 108/111] fix: do not end in an undocumented error on Jump List
 items that are not a stream

---
 dtformats/jump_list.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index b4febd2..9c67ea4 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -108,6 +108,9 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
         if not olecf_item:
             raise errors.ParseError("Missing DestList stream.")
 
+        if not isinstance(olecf_item, pyolecf.stream):
+            raise errors.ParseError("Unsupported DestList: not a stream.")
+
         # The DestList stream can be of size 0 if the Jump List is empty.
         if olecf_item.size > 0:
             self._ReadDestListHeader(olecf_item)
@@ -191,7 +194,12 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
           ParseError: if the jump list entry cannot be read.
         """
         if self._debug:
-            self._DebugPrintText(f"Reading LNK file from stream: {olecf_item.name:s}")
+            self._DebugPrintText(f"Reading LNK file from stream: {olecf_item.name!s}")
+
+        if not isinstance(olecf_item, pyolecf.stream):
+            raise errors.ParseError(
+                f"Unsupported LNK file: {olecf_item.name!s} not a stream."
+            )
 
         jump_list_entry = JumpListEntry(olecf_item.name)
 
@@ -199,7 +207,7 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
             jump_list_entry.ReadFileObject(olecf_item)
         except OSError as exception:
             raise errors.ParseError(
-                f"Unable to parse LNK file from stream: {olecf_item.name:s} "
+                f"Unable to parse LNK file from stream: {olecf_item.name!s} "
                 f"with error: {exception!s}"
             )
 
-- 
2.43.0


From 82bbdcb3517d933d811510719e21abef5610a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 109/111] fix: do not end in an undocumented error on Spotlight
 string attributes without a value

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 8023862..bfde9bb 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1462,6 +1462,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"Unable to parse array of string values with error: {exception!s}"
             )
 
+        if not array_of_values and property_type & 0x03 != 0x02:
+            raise errors.ParseError("Missing string value.")
+
         if property_type & 0x03 == 0x03:
             value = array_of_values[0]
             if "\x16\x02" in value:
-- 
2.43.0


From 019807a2fe6ff5de496e0fd8eef906dc25f8cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:57 +0000
Subject: [PATCH 110/111] fix: unified logging: read strings and timesync of a
 log archive without a dsc directory

---
 dtformats/unified_logging.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 9bda70f..863059f 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5060,11 +5060,8 @@ class TraceV3File(data_format.BinaryDataFile):
                     lower_last_path_segment = path_segments[-1].lower()
 
         if lower_last_path_segment.endswith(".logarchive"):
-            path_segments.append("dsc")
-            dsc_path = self._file_system_helper.JoinPath(path_segments)
-            if self._file_system_helper.CheckFileExistsByPath(dsc_path):
-                path_segments.pop(-1)
-                self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
+            # Note that not every archive contains a dsc directory.
+            self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
 
         else:
             path_segments.append("uuidtext")
-- 
2.43.0


From c0a4307ed153358d7b22f1d9e40bee330fbf9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 111/111] fix: do not end in an undocumented error on data
 items of an unknown type

---
 dtformats/unified_logging.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 863059f..7268981 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2877,6 +2877,9 @@ class TraceV3File(data_format.BinaryDataFile):
         if not decoder_object:
             return f"<decode: unsupported decoder: {decoder_names[0]:s}>"
 
+        if value_data is None:
+            return "<decode: missing data>"
+
         # TODO: add support for precision
         _ = precision
 
@@ -3960,9 +3963,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     0x72,
                     0xF2,
                 ):
-                    raise errors.ParseError(
+                    self._DebugPrintText(
                         f"Unsupported data item value type: "
-                        f"0x{data_item.value_type:02x}."
+                        f"0x{data_item.value_type:02x}.\n"
                     )
 
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
-- 
2.43.0

