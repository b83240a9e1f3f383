From b0cfecea93c19709a8a85a9771185ca2fb705160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 01/36] fix: pad short logical record segments instead of
 refusing to write them

Records with a body shorter than 12 bytes, and any maximum record length
below 32, made the writer raise although both are valid.
---
 .../logical_record/logical_record_bytes.py    | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..9648fd1 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -12,6 +12,7 @@ class LogicalRecordBytes:
     """Wrap bytes of a LogicalRecord and StorageUnitLabel, adding segmenting functionalities."""
 
     padding: bytes = RepC.USHORT.convert(1)  #: padding byte added if the number of bytes in a segment is odd
+    min_segment_body_size: int = 12  #: min segment size is 16 bytes, of which 4 are taken by the header
 
     def __init__(self, bts: bytes, lr_type_struct: bytes, is_eflr: bool = False):
         """Initialise a LogicalRecordBytes object.
@@ -69,26 +70,25 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
             is_last=is_last
         )
 
-        size = n_bytes + 4  # adding header size - 4 bytes
-        if size % 2:
-            # total segment size must be even; if the number of bytes is odd, add a padding byte
-            size += 1
-            segment_attributes.has_padding = True
+        # the segment body must have at least 12 bytes and the total segment size must be even;
+        # if that is not the case, add padding bytes
+        n_padding = max(self.min_segment_body_size - n_bytes, n_bytes % 2)
+        segment_attributes.has_padding = bool(n_padding)
+
+        size = n_bytes + n_padding + 4  # adding header size - 4 bytes
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
         if segment_attributes.has_padding:
-            new_bts += self.padding  # add the promised padding byte
+            # add the promised padding bytes; the last one of them holds the pad count
+            new_bts += n_padding * RepC.USHORT.convert(n_padding)
 
         return new_bts, size
 
@@ -99,8 +99,7 @@ class LogicalRecordBytes:
 
         Args:
             max_n_bytes :   Maximal number of bytes in a segment body. Note that 4 more bytes will be added for the
-                            header (and one more byte for the padding if the number of bytes is odd).
-                            Must be an integer of minimal value of 12. Only this condition (>= 12) is checked;
+                            header. Must be an even integer of minimal value of 12. Only the minimal value is checked;
                             other checks (type etc.) are left out for performance reasons.
 
         Yields:
@@ -108,21 +107,22 @@ class LogicalRecordBytes:
         """
 
         start_pos = 0  # start from the beginning of the logical record bytes
-        remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
+        remaining_size = self._size  # all bytes will be processed
+        min_n_bytes = self.min_segment_body_size
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < min_n_bytes:
+            raise ValueError(f"Max size of a logical record segment body cannot be less than {min_n_bytes} "
+                             f"(got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
-                # the next segment would be shorter than 12 bytes, and this is not allowed
-                # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
-                n_bytes -= (12 - future_remaining_size)
-                future_remaining_size = 12
+            if 0 < future_remaining_size < min_n_bytes <= remaining_size - min_n_bytes:
+                # the next segment would be shorter than 12 bytes, so it would have to be padded; to avoid that,
+                # the current segment is shortened by a few bytes which will be passed over to the next segment
+                # (unless this would make the current segment too short)
+                n_bytes -= (min_n_bytes - future_remaining_size)
+                future_remaining_size = min_n_bytes
 
             yield self.make_segment(start_pos, n_bytes)
 
-- 
2.43.0


From 444fdefc557546f7c706f043f4603dc6a00e8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 02/36] fix: do not append padding bytes to no-format payloads

Payloads shorter than 12 bytes (with the object reference) came back with
0x01 bytes appended; the segment padding takes care of the minimum length.
---
 .../core/logical_record/logical_record_bytes.py        |  1 -
 .../logical_record/iflr_types/no_format_frame_data.py  | 10 +---------
 2 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index 9648fd1..43b9c2c 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -11,7 +11,6 @@ logger = logging.getLogger(__name__)
 class LogicalRecordBytes:
     """Wrap bytes of a LogicalRecord and StorageUnitLabel, adding segmenting functionalities."""
 
-    padding: bytes = RepC.USHORT.convert(1)  #: padding byte added if the number of bytes in a segment is odd
     min_segment_body_size: int = 12  #: min segment size is 16 bytes, of which 4 are taken by the header
 
     def __init__(self, bts: bytes, lr_type_struct: bytes, is_eflr: bool = False):
diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..b9de52f 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,7 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From 0414281456b17618d92f65a4aede2aa50f349bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 03/36] fix: reject storage unit sequence numbers which are not
 non-negative integers

Floats, negative numbers and bools were written into the label as they were
printed (e.g. ' 1.5', '  -1', 'True').
---
 src/dliswriter/logical_record/misc/storage_unit_label.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..447e2e0 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -1,3 +1,4 @@
+from numbers import Integral
 from typing import Any
 
 from dliswriter.utils.internal.converters import get_ascii_bytes
@@ -38,6 +39,11 @@ class StorageUnitLabel:
 
         super().__init__()
 
+        if not isinstance(sequence_number, Integral) or isinstance(sequence_number, bool):
+            raise TypeError(f"Sequence number must be an integer; got {type(sequence_number)}: {sequence_number}")
+        if sequence_number < 0:
+            raise ValueError(f"Sequence number cannot be negative; got {sequence_number}")
+
         self.sequence_number = sequence_number
         self.set_identifier = validate_string(set_identifier)
         self.max_record_length = max_record_length
-- 
2.43.0


From ff7fa979259db2b9f4c037cec2419ba565ec0edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 04/36] fix: count the logical records which are actually
 written

The number passed to the progress bar counted EFLR items instead of sets and
left out the file headers, so files with several small logical files were
refused ('Value ... is too large').
---
 src/dliswriter/file/file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..c5ba128 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -165,11 +165,12 @@ class DLISFile:
                 ]
             )
 
+        # number of the logical records to be generated
         n = 0
-        for eflr_set_type in self._eflr_sets:
-            n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
-
         for idx_lf, logical_file in enumerate(self.logical_files):
+            n += 1  # file header set
+            for set_dict in logical_file._eflr_sets.values():
+                n += len(set_dict)
             for mfd in multi_frame_data_objects[idx_lf]:
                 n += len(mfd)
             n += len(logical_file._no_format_frame_data)
-- 
2.43.0


From a80b24583942c84711952af9595ebeb942b4e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 05/36] fix: write identifiers with a one-byte length and
 refuse those longer than 255 characters

---
 .../core/attribute/attribute.py               |  6 +++---
 .../logical_record/core/eflr/eflr_set.py      |  6 +++---
 .../logical_record/eflr_types/file_header.py  |  6 +++---
 .../utils/internal/struct_writer.py           | 19 ++++++++++++++++---
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..933f1c5 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -218,7 +218,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -258,7 +258,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 7895267..a4ac020 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -7,7 +7,7 @@ Unless otherwise specified, all quotes in this file come from the RP66 v1 standa
 from typing import Any
 
 from dliswriter.utils.internal.converters import get_ascii_bytes
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import RepresentationCode, EFLRType
 from dliswriter.logical_record.core.eflr import EFLRSet, EFLRItem
 from dliswriter.utils.internal.value_checkers import validate_string
@@ -109,11 +109,11 @@ class FileHeaderSet(EFLRSet):
         bts = b''
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('SEQUENCE-NUMBER')
+        bts += write_struct_ident('SEQUENCE-NUMBER')
         bts += pack_ushort(20)
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('ID')
+        bts += write_struct_ident('ID')
         bts += pack_ushort(20)
 
         return bts
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..bda4be2 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -77,6 +77,19 @@ def write_struct_ascii(value: Any) -> bytes:
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as IDENT bytes.
+
+    As opposed to ASCII, the length of an IDENT is always stored in a single byte, so it cannot exceed 255 characters.
+    """
+
+    value_str = str(value)
+    if len(value_str) > 255:
+        raise ValueError(f"An identifier cannot be longer than 255 characters; got {len(value_str)}: {value_str}")
+
+    return RepresentationCode.USHORT.convert(len(value_str)) + value_str.encode('ascii')
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +112,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +125,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +141,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From 9fcedcd4845d214c774ef9d86db8cecd549e30cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 06/36] fix: always encode the current value and name instead
 of a cached equal one

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 +--
 src/dliswriter/utils/internal/struct_writer.py       | 2 --
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..16f4ade 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING, Any, Union, Optional, Generator
 import numpy as np
 
@@ -158,7 +157,7 @@ class EFLRItem:
 
         return super().__setattr__(key, value)
 
-    @cached_property
+    @property
     def obname(self) -> bytes:
         """Create OBNAME bytes of this item - bytes used to identify an item in the file.
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index bda4be2..0112428 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timezone
 from typing import Any, TYPE_CHECKING
-from functools import lru_cache
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -149,7 +148,6 @@ _struct_dict = {
 }
 
 
-@lru_cache(maxsize=65536)
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
-- 
2.43.0


From 94060a795d7ab688c11391126d00a18e458fe1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 07/36] fix: refuse numbers which their representation code
 cannot hold exactly

---
 .../logical_record/core/attribute/subtypes.py       |  9 ++++++---
 src/dliswriter/utils/internal/struct_writer.py      | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..c061044 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -1,5 +1,5 @@
 import logging
-from numbers import Number
+from numbers import Integral, Number
 from datetime import datetime
 from typing import Union, Optional, Any, overload
 
@@ -140,7 +140,7 @@ class DTimeAttribute(Attribute):
             return value
 
         if isinstance(value, Number) and self._allow_float:
-            return float(value)
+            return NumericAttribute._float_parser(value)
 
         if not isinstance(value, str):
             raise TypeError(f"Expected a datetime object, number, or str; got {type(value)}: {value}")
@@ -247,6 +247,9 @@ class NumericAttribute(Attribute):
         if not isinstance(value, Number):
             raise TypeError(f"Cannot convert a {type(value)} object ({value}) to float")
 
+        if isinstance(value, Integral) and int(float(value)) != value:
+            raise ValueError(f"{value} cannot be represented as float without a loss of precision")
+
         return float(value)
 
     def _convert_number(self, value: number_type) -> number_type:
@@ -306,7 +309,7 @@ class StatusAttribute(Attribute):
         if isinstance(val, bool):
             return int(val)
 
-        if isinstance(val, float) and val % 1:
+        if isinstance(val, Number) and val % 1:
             raise ValueError(f"Status cannot be a fraction; got {val}")
 
         val = int(val)
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 0112428..6ab0b8b 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,5 +1,6 @@
 from datetime import datetime, timezone
-from typing import Any, TYPE_CHECKING
+from numbers import Integral
+from typing import Any, Union, TYPE_CHECKING
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -136,8 +137,18 @@ def write_struct_status(value: int) -> bytes:
     return RepresentationCode.USHORT.convert(value)
 
 
+def write_struct_fdoubl(value: Union[int, float]) -> bytes:
+    """Represent a number as a double-precision float. Refuse integers which would lose precision."""
+
+    if isinstance(value, Integral) and int(float(value)) != value:
+        raise ValueError(f"{value} cannot be represented as a double-precision float without a loss of precision")
+
+    return RepresentationCode.FDOUBL.convert(value)
+
+
 # dictionary collecting all the individual write_struct sub-functions for faster access in the main function below
 _struct_dict = {
+    RepresentationCode.FDOUBL: write_struct_fdoubl,
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
     RepresentationCode.IDENT: write_struct_ident,
-- 
2.43.0


From 01e653a953dfa75e040a8a13de5e34db47029e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 08/36] fix: convert big-endian channel data before writing
 them

---
 src/dliswriter/utils/source_data_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..2e3ab04 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -108,6 +108,7 @@ class SourceDataWrapper(ABC):
             # determine the numpy number dtype
             number_type = known_dtypes.get(dtype_name, dset_row0.dtype)
             ReprCodeConverter.validate_numpy_dtype(number_type)
+            number_type = np.dtype(number_type).newbyteorder('=')  # FrameData expects the native byte order
 
             # determine the dtype of the data set (2- or 3-tuple)
             dt = (dtype_name, number_type)
-- 
2.43.0


From d75424c63dc74bed8d070f8bb778de81a25c2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 09/36] fix: keep the element limit of a channel specified by
 the user

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..388d4ae 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -139,7 +139,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+                self.element_limit.value = dim
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
-- 
2.43.0


From c0c54ca5711e058caa9796a55beecde6ceb925c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:33 +0000
Subject: [PATCH 10/36] fix: do not keep values derived while writing a file
 for the next one

---
 src/dliswriter/file/file.py                   | 29 +++++++++++++++++--
 .../logical_record/core/eflr/eflr_item.py     | 11 +++++++
 .../logical_record/eflr_types/channel.py      | 11 +++++++
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index c5ba128..5c3eb71 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -3,6 +3,7 @@
 Note: unless otherwise specified, all quotes come from teh RP66 v1 standard specification.
 """
 
+from contextlib import contextmanager
 from typing import Any, Union, Optional, TypeVar, Generator
 import numpy as np
 from timeit import timeit
@@ -177,6 +178,28 @@ class DLISFile:
 
         return SizedGenerator(self.generator(multi_frame_data_objects), size=n)
 
+    @contextmanager
+    def _keep_specification(self) -> Generator:
+        """Undo the changes made to the objects inside the context.
+
+        While a file is written, missing attributes are filled in with defaults or with values derived from the data.
+        These should not be mistaken for the user's choices when the file is written again.
+        """
+
+        states = [
+            (item, item.get_state())
+            for lf in self.logical_files
+            for set_dict in lf._eflr_sets.values()
+            for eflr_set in set_dict.values()
+            for item in eflr_set.get_all_eflr_items()
+        ]
+
+        try:
+            yield
+        finally:
+            for item, state in states:
+                item.set_state(state)
+
     def write(
         self,
         dlis_file_name: file_name_type,
@@ -223,7 +246,8 @@ class DLISFile:
                 logical_records, output_chunk_size=output_chunk_size
             )
 
-        exec_time = timeit(timed_func, number=1)
+        with self._keep_specification():
+            exec_time = timeit(timed_func, number=1)
         logger.info(
             f"DLIS file created in {timedelta(seconds=exec_time)} ({exec_time} seconds)"
         )
@@ -2204,9 +2228,8 @@ class LogicalFile:
             data = {}
 
         if isinstance(data, dict):
-            self._data_dict = self._data_dict | data
             data_object = DictDataWrapper(
-                self._data_dict,
+                self._data_dict | data,
                 mapping=fr.channel_name_mapping,
                 known_dtypes=fr.known_channel_dtypes_mapping,
                 from_idx=from_idx,
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 16f4ade..0d609dd 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -166,6 +166,17 @@ class EFLRItem:
 
         return write_struct_obname(self)
 
+    def get_state(self) -> dict[str, Any]:
+        """Collect what can be changed in this item when a file is written - values and units of the attributes."""
+
+        return {key: (attr._value, attr._units) for key, attr in self.attributes.items()}
+
+    def set_state(self, state: dict[str, Any]) -> None:
+        """Bring the item back to the state obtained earlier from 'get_state'."""
+
+        for key, attr in self.attributes.items():
+            attr._value, attr._units = state[key]
+
     def _make_attrs_bytes(self) -> bytes:
         """Create bytes describing the values of the EFLRItem instance's Attributes."""
 
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 388d4ae..ab5e05d 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -111,6 +111,17 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self._cast_dtype = dt
         self.representation_code.set_from_dtype(self.cast_dtype)
 
+    def get_state(self) -> dict[str, Any]:
+        """Collect what can be changed in this item when a file is written - including the cast dtype."""
+
+        return super().get_state() | {'_cast_dtype': self._cast_dtype}
+
+    def set_state(self, state: dict[str, Any]) -> None:
+        """Bring the item back to the state obtained earlier from 'get_state'."""
+
+        super().set_state(state)
+        self._cast_dtype = state['_cast_dtype']
+
     def set_dimension_and_repr_code_from_data(self, data: SourceDataWrapper) -> None:
         """Determine and dimension and representation code attributes of the ChannelItem based on the source data."""
 
-- 
2.43.0


From 12cf795481ad13bc6219b675287da3075042fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:44 +0000
Subject: [PATCH 11/36] fix: derive the frame index characteristics from the
 values which are written

---
 src/dliswriter/logical_record/eflr_types/frame.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..3647f6e 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -98,7 +98,8 @@ class FrameItem(EFLRItem):
                 setattr(attr, key, value)
 
         index_channel: ChannelItem = self.channels.value[0]
-        index_data = data[index_channel.name][:]
+        # index in the form it is written to the file (i.e. after the cast, if any)
+        index_data = data[index_channel.name].astype(data.dtype[index_channel.name].base)
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
@@ -120,7 +121,7 @@ class FrameItem(EFLRItem):
                                    f"for {index_channel} of {self}")
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
-            if spacing is None:
+            if spacing is None and len(index_data) > 1:  # a single row has no spacing
                 # spacing cannot be used because it is not uniform enough; using only direction - if available
                 m = (f"Spacing of the index channel of {self} is not uniform; this can cause issues in some viewer "
                      f"software. Consider implicit indexing by row number number instead "
@@ -131,7 +132,7 @@ class FrameItem(EFLRItem):
                 if direction is not None:
                     assign_if_none(self.direction, 'INCREASING' if direction > 0 else 'DECREASING')
             else:
-                assign_if_none(self.spacing, spacing)
+                assign_if_none(self.spacing, spacing)  # does nothing if spacing is None
                 # no need to define direction if spacing is defined
 
     @staticmethod
@@ -143,6 +144,9 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
+        if np.issubdtype(index_data.dtype, np.integer):
+            index_data = index_data.astype(np.int64)  # differences of narrow or unsigned integers could wrap around
+
         diff = np.diff(index_data)
         diff_unique = np.unique(diff)
 
@@ -155,9 +159,12 @@ class FrameItem(EFLRItem):
         else:
             direction = None  # some increasing, some decreasing -> not determined
 
+        if not len(diff) or not np.isfinite(diff).all():
+            return None, direction  # there is no (finite) difference which could be the spacing
+
         if len(diff_unique) == 1:
             # if spacing between each sample is the same, this is it
-            return diff_unique[0], direction
+            return diff_unique[0].item(), direction
 
         # if not, check if these are minor deviations (can be attributed to numerical accuracy) or not
         median_diff = np.median(diff).item()  # mypy complains that median_diff is a numpy array...
-- 
2.43.0


From 74eb72408c4e19b13ac7ea558bfd3cafff060846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:52 +0000
Subject: [PATCH 12/36] fix: respect the row window when slicing a structured
 array directly

---
 src/dliswriter/utils/source_data_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 2e3ab04..3af3811 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -331,7 +331,9 @@ class NumpyDataWrapper(SourceDataWrapper):
         """
 
         if self._dtype == self._data_source.dtype:
-            return self._data_source[start:stop]
+            if stop is None:
+                stop = self._n_rows
+            return self._data_source[self._from_idx + start:self._from_idx + stop]
 
         return super().load_chunk(start, stop)
 
-- 
2.43.0


From cbe98c972c668f869a49bdc36c6af7bf3c1e6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:55 +0000
Subject: [PATCH 13/36] fix: refuse non-positive input chunk sizes instead of
 writing no rows

---
 src/dliswriter/file/multi_frame_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..32891d2 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Chunk size must be a positive number of rows; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
-- 
2.43.0


From 4005a1692e2367e64b6e413d781310304a40a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:29 +0000
Subject: [PATCH 14/36] fix: write text of str subclasses (e.g. Unit members
 given as units) instead of their str() form

---
 src/dliswriter/utils/internal/struct_writer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 6ab0b8b..e1a41cd 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -67,13 +67,19 @@ def write_struct_dtime(date_time: datetime) -> bytes:
     return value
 
 
+def _get_text(value: Any) -> str:
+    """Convert value to str. In case of str subclasses (e.g. members of string enums), take the actual text."""
+
+    return str.__str__(value) if isinstance(value, str) else str(value)
+
+
 def write_struct_ascii(value: Any) -> bytes:
     """Convert value to str, encode as ASCII, and represent as bytes.
 
     The first bytes are the number of characters in the value (converted to str).
     """
 
-    value_str = str(value)
+    value_str = _get_text(value)
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
@@ -83,7 +89,7 @@ def write_struct_ident(value: Any) -> bytes:
     As opposed to ASCII, the length of an IDENT is always stored in a single byte, so it cannot exceed 255 characters.
     """
 
-    value_str = str(value)
+    value_str = _get_text(value)
     if len(value_str) > 255:
         raise ValueError(f"An identifier cannot be longer than 255 characters; got {len(value_str)}: {value_str}")
 
-- 
2.43.0


From 3411cfaa3e950a1d8834a00391785b54ca4ca235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:29 +0000
Subject: [PATCH 15/36] fix: dimension of an object with a plain list of values
 is [1], not an empty list

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 0d609dd..5bcc9a7 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -291,7 +291,7 @@ class DimensionedItem:
         except ValueError:
             raise RuntimeError(f"{self}: {value_label} {value} does not have a regular dimensionality structure")
 
-        dim_from_value = list(arr.shape[1:])
+        dim_from_value = list(arr.shape[1:]) or [1]  # each of the values is a scalar -> 1-dimensional
         if self.dimension.value is not None:
             if dim_from_value != self.dimension.value:
                 raise RuntimeError(f"{self}: shape of {value_label} {value} (shape {arr.shape}) does not match "
-- 
2.43.0


From ba9a89fa27198df934f57da9bb1c68b20742dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 16/36] fix: discard everything that a rejected add_* call has
 added

---
 src/dliswriter/file/eflr_sets_dict.py         | 20 ++++++++-
 src/dliswriter/file/file.py                   | 43 ++++++++++++++++++-
 .../logical_record/core/eflr/eflr_set.py      |  5 +++
 3 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..e44d3aa 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -69,5 +69,23 @@ class EFLRSetsDict(defaultdict):
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
-        for value in self[eflr_set_type].values():
+        # note: using 'get' so that a mere lookup does not register a new set type
+        for value in self.get(eflr_set_type, {}).values():
             yield from value.get_all_eflr_items()
+
+    def get_state(self) -> dict:
+        """Collect the registered sets and the numbers of items in each of them."""
+
+        return {
+            eflr_set_type: {name: (eflr_set, eflr_set.n_items) for name, eflr_set in eflr_set_dict.items()}
+            for eflr_set_type, eflr_set_dict in self.items()
+        }
+
+    def set_state(self, state: dict) -> None:
+        """Bring the structure back to the state obtained earlier from 'get_state'."""
+
+        self.clear()
+        for eflr_set_type, set_states in state.items():
+            self[eflr_set_type] = {name: eflr_set for name, (eflr_set, _) in set_states.items()}
+            for eflr_set, n_items in set_states.values():
+                eflr_set.drop_items(n_items)
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 5c3eb71..367709c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -4,7 +4,8 @@ Note: unless otherwise specified, all quotes come from teh RP66 v1 standard spec
 """
 
 from contextlib import contextmanager
-from typing import Any, Union, Optional, TypeVar, Generator
+from functools import wraps
+from typing import Any, Callable, Union, Optional, TypeVar, Generator
 import numpy as np
 from timeit import timeit
 from datetime import timedelta, datetime
@@ -37,6 +38,7 @@ logger = logging.getLogger(__name__)
 
 
 T = TypeVar("T")
+AnyCallable = TypeVar("AnyCallable", bound=Callable)
 AttrSetupType = Union[T, AttrDict, AttrSetup]
 OptAttrSetupType = Optional[AttrSetupType[T]]
 
@@ -66,6 +68,24 @@ def raise_or_warn(message: str) -> None:
     logger.warning(message)
 
 
+def undo_if_rejected(method: AnyCallable) -> AnyCallable:
+    """Decorate a method adding an object to a LogicalFile: if the method raises an error, discard all it has added."""
+
+    @wraps(method)
+    def wrapper(self: "LogicalFile", *args: Any, **kwargs: Any) -> Any:
+        registries = (self.physical_file._eflr_sets, self._eflr_sets)
+        states = [registry.get_state() for registry in registries]
+
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            for registry, state in zip(registries, states):
+                registry.set_state(state)
+            raise
+
+    return wrapper  # type: ignore  # same signature
+
+
 class DLISFile:
     """DLIS file. Contains the list of the logical files, the Storage Unit Label and the writing routines"""
 
@@ -354,6 +374,7 @@ class LogicalFile:
 
         return list(self._eflr_sets.get_all_items_for_set_type(eflr_types.OriginSet))
 
+    @undo_if_rejected
     def add_axis(
         self,
         name: str,
@@ -403,6 +424,7 @@ class LogicalFile:
 
         return ax
 
+    @undo_if_rejected
     def add_calibration(
         self,
         name: str,
@@ -479,6 +501,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_calibration_coefficient(
         self,
         name: str,
@@ -558,6 +581,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_calibration_measurement(
         self,
         name: str,
@@ -700,6 +724,7 @@ class LogicalFile:
 
         return m
 
+    @undo_if_rejected
     def add_channel(
         self,
         name: str,
@@ -822,6 +847,7 @@ class LogicalFile:
 
         return n
 
+    @undo_if_rejected
     def add_comment(
         self,
         name: str,
@@ -855,6 +881,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_computation(
         self,
         name: str,
@@ -927,6 +954,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_equipment(
         self,
         name: str,
@@ -1044,6 +1072,7 @@ class LogicalFile:
 
         return eq
 
+    @undo_if_rejected
     def add_frame(
         self,
         name: str,
@@ -1157,6 +1186,7 @@ class LogicalFile:
 
         return fr
 
+    @undo_if_rejected
     def add_group(
         self,
         name: str,
@@ -1203,6 +1233,7 @@ class LogicalFile:
 
         return g
 
+    @undo_if_rejected
     def add_long_name(
         self,
         name: str,
@@ -1303,6 +1334,7 @@ class LogicalFile:
 
         return ln
 
+    @undo_if_rejected
     def add_message(
         self,
         name: str,
@@ -1354,6 +1386,7 @@ class LogicalFile:
 
         return m
 
+    @undo_if_rejected
     def add_no_format(
         self,
         name: str,
@@ -1441,6 +1474,7 @@ class LogicalFile:
             next_available_origin_ref += 1
         return next_available_origin_ref
 
+    @undo_if_rejected
     def add_origin(
         self,
         name: str,
@@ -1618,6 +1652,7 @@ class LogicalFile:
 
         return o
 
+    @undo_if_rejected
     def add_parameter(
         self,
         name: str,
@@ -1677,6 +1712,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_path(
         self,
         name: str,
@@ -1800,6 +1836,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_process(
         self,
         name: str,
@@ -1876,6 +1913,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_splice(
         self,
         name: str,
@@ -1928,6 +1966,7 @@ class LogicalFile:
 
         return sp
 
+    @undo_if_rejected
     def add_tool(
         self,
         name: str,
@@ -1989,6 +2028,7 @@ class LogicalFile:
 
         return t
 
+    @undo_if_rejected
     def add_well_reference_point(
         self,
         name: str,
@@ -2079,6 +2119,7 @@ class LogicalFile:
 
         return w
 
+    @undo_if_rejected
     def add_zone(
         self,
         name: str,
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..29c9fbb 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -84,6 +84,11 @@ class EFLRSet(LogicalRecord):
 
         self._eflr_item_list.append(child)
 
+    def drop_items(self, n: int) -> None:
+        """Forget all EFLRItem instances registered with this EFLRSet after the first n."""
+
+        del self._eflr_item_list[n:]
+
     def get_all_eflr_items(self) -> list[EFLRItem]:
         """Return a list of all EFLRItem instances registered with this EFLRSet instance."""
 
-- 
2.43.0


From 80c7381a446f21913bd28f541de0e421bde1efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 17/36] fix: state the zero count of an attribute with an empty
 list of values

---
 .../logical_record/core/attribute/attribute.py        | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 933f1c5..b771669 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -236,18 +236,11 @@ class Attribute:
 
         # count
         count = self.count
-        if count and count != 1:
+        if count is not None and count != 1:  # 1 is the default; 0 (an empty list) has to be stated
             bts += write_struct_uvari(count)
             characteristics += '1'
         else:
-            if self._value is not None:
-                if count is not None and count > 1:
-                    bts += write_struct_uvari(count)
-                    characteristics += '1'
-                else:
-                    characteristics += '0'
-            else:
-                characteristics += '0'
+            characteristics += '0'
 
         # representation code
         if self.representation_code:
-- 
2.43.0


From 35299d64e01f623aebc710abc98fa01ba1a9b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:24 +0000
Subject: [PATCH 18/36] fix: refuse a list of values for an attribute which
 takes a single value

---
 src/dliswriter/logical_record/core/attribute/attribute.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index b771669..a8bcb49 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -188,6 +188,10 @@ class Attribute:
             if not isinstance(value, (list, tuple)):
                 value = [value]
             return [self.converter(v) for v in value]
+
+        if isinstance(value, (list, tuple)) and not self._multidimensional:
+            raise TypeError(f"{self} takes a single value; got {type(value)}: {value}")
+
         return self.converter(value)
 
     @property
-- 
2.43.0


From 1d73f61cec53ebdad364ca9dec4e6ba5716da20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:39 +0000
Subject: [PATCH 19/36] fix: refuse values which are not text where text is
 encoded instead of writing their str() form

---
 src/dliswriter/utils/internal/struct_writer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index e1a41cd..f940479 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -68,15 +68,18 @@ def write_struct_dtime(date_time: datetime) -> bytes:
 
 
 def _get_text(value: Any) -> str:
-    """Convert value to str. In case of str subclasses (e.g. members of string enums), take the actual text."""
+    """Check that value is a str. In case of str subclasses (e.g. members of string enums), take the actual text."""
 
-    return str.__str__(value) if isinstance(value, str) else str(value)
+    if not isinstance(value, str):
+        raise TypeError(f"Expected a str; got {type(value)}: {value}")
+
+    return str.__str__(value)
 
 
 def write_struct_ascii(value: Any) -> bytes:
-    """Convert value to str, encode as ASCII, and represent as bytes.
+    """Encode text as ASCII and represent as bytes.
 
-    The first bytes are the number of characters in the value (converted to str).
+    The first bytes are the number of characters in the text.
     """
 
     value_str = _get_text(value)
@@ -84,7 +87,7 @@ def write_struct_ascii(value: Any) -> bytes:
 
 
 def write_struct_ident(value: Any) -> bytes:
-    """Convert value to str, encode as ASCII, and represent as IDENT bytes.
+    """Encode text as ASCII and represent as IDENT bytes.
 
     As opposed to ASCII, the length of an IDENT is always stored in a single byte, so it cannot exceed 255 characters.
     """
-- 
2.43.0


From 035978e9e13c5bf464e30e238c790683443638f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 20/36] fix: keep an empty long name of a channel given by the
 user

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index ab5e05d..95a91b2 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -208,7 +208,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.value = self.name
 
-- 
2.43.0


From 2799b37a3292c4b484e2dcc44ac2a2e036d80117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 21/36] fix: refuse datasets with different numbers of rows
 instead of broadcasting or truncating them

---
 src/dliswriter/utils/source_data_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 3af3811..06b1972 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -185,6 +185,10 @@ class SourceDataWrapper(ABC):
             Structured numpy.ndarray objects with the consecutive chunks of the source data.
         """
 
+        numbers_of_rows = {name: self._data_source[name].shape[0] for name in self._mapping.values()}
+        if len(set(numbers_of_rows.values())) > 1:
+            raise ValueError(f"All datasets should have the same number of rows; got {numbers_of_rows}")
+
         if chunk_rows is None:
             chunk_rows = self._n_rows
             n_full_chunks = 1
-- 
2.43.0


From e0e17c6b2793d03dfeca78494b97b27e15c34e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 22/36] fix: refuse row windows which reach outside the data

---
 src/dliswriter/utils/source_data_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 06b1972..4ed8a6e 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -50,6 +50,10 @@ class SourceDataWrapper(ABC):
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
-- 
2.43.0


From 1963f28907779d1e8a17b55137e4e57aeec00b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 23/36] fix: refuse to write a file without logical files

---
 src/dliswriter/file/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 367709c..269f5bc 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -247,6 +247,9 @@ class DLISFile:
             This function is used in a timeit call to time the file creation.
             """
 
+            if not self.logical_files:
+                raise RuntimeError("No logical files defined")
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From 52f54d25181fd9b9fae705f1e2ada820acf179fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:26 +0000
Subject: [PATCH 24/36] fix: check the storage unit sequence number when it is
 written

---
 .../logical_record/misc/storage_unit_label.py | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 447e2e0..c74c34a 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -39,18 +39,24 @@ class StorageUnitLabel:
 
         super().__init__()
 
-        if not isinstance(sequence_number, Integral) or isinstance(sequence_number, bool):
-            raise TypeError(f"Sequence number must be an integer; got {type(sequence_number)}: {sequence_number}")
-        if sequence_number < 0:
-            raise ValueError(f"Sequence number cannot be negative; got {sequence_number}")
-
-        self.sequence_number = sequence_number
+        self.sequence_number = self._validate_sequence_number(sequence_number)
         self.set_identifier = validate_string(set_identifier)
         self.max_record_length = max_record_length
 
         if max_record_length > self.max_record_length_limit:
             raise ValueError(f"Max record length cannot be larger than {self.max_record_length_limit}")
 
+    @staticmethod
+    def _validate_sequence_number(sequence_number: int) -> int:
+        """Check that the sequence number is a non-negative integer. Return it if so; otherwise, raise an error."""
+
+        if not isinstance(sequence_number, Integral) or isinstance(sequence_number, bool):
+            raise TypeError(f"Sequence number must be an integer; got {type(sequence_number)}: {sequence_number}")
+        if sequence_number < 0:
+            raise ValueError(f"Sequence number cannot be negative; got {sequence_number}")
+
+        return sequence_number
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(sequence_number={self.sequence_number}, "
                 f"set_identifier={self.set_identifier}, max_record_length={self.max_record_length})")
@@ -79,7 +85,7 @@ class StorageUnitLabel:
         """
 
         # Storage Unit Sequence Number
-        _susn_as_bytes = get_ascii_bytes(str(self.sequence_number), 4)
+        _susn_as_bytes = get_ascii_bytes(str(self._validate_sequence_number(self.sequence_number)), 4)
 
         # DLIS Version
         _dlisv_as_bytes = get_ascii_bytes(self.dlis_version, 5, justify_left=True)
-- 
2.43.0


From 091ef22c145fa144f6642f9289685ffcfa111708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:43 +0000
Subject: [PATCH 25/36] fix: check the file header sequence number when it is
 written; refuse booleans

---
 .../logical_record/eflr_types/file_header.py  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index a4ac020..5a44647 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -43,11 +43,7 @@ class FileHeaderItem(EFLRItem):
         if len(header_id) > self.header_id_length_limit:
             raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
 
-        if not isinstance(sequence_number, int):
-            raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
-        if not 0 < sequence_number <= self.max_sequence_number:
-            raise ValueError(f"Sequence number must be a positive integer not larger than {self.max_sequence_number}; "
-                             f"got {sequence_number}")
+        self._validate_sequence_number(sequence_number)
 
         if not isinstance(identifier, str):
             raise TypeError(f"'identifier' should be a str; got {type(identifier)}: {identifier}")
@@ -59,6 +55,18 @@ class FileHeaderItem(EFLRItem):
 
         super().__init__(name=identifier, parent=parent)
 
+    @classmethod
+    def _validate_sequence_number(cls, sequence_number: int) -> int:
+        """Check that the sequence number is a positive integer of at most 10 digits. Return it if so."""
+
+        if not isinstance(sequence_number, int) or isinstance(sequence_number, bool):
+            raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
+        if not 0 < sequence_number <= cls.max_sequence_number:
+            raise ValueError(f"Sequence number must be a positive integer not larger than {cls.max_sequence_number}; "
+                             f"got {sequence_number}")
+
+        return sequence_number
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(header_id={self.header_id}, sequence_number={self.sequence_number}, "
                 f"parent=FileHeaderSet())")
@@ -85,7 +93,7 @@ class FileHeaderItem(EFLRItem):
 
         bts += pack_ushort(int('00100001', 2))
         bts += pack_ushort(10)
-        bts += get_ascii_bytes(str(self.sequence_number), 10, justify_left=False)
+        bts += get_ascii_bytes(str(self._validate_sequence_number(self.sequence_number)), 10, justify_left=False)
         bts += pack_ushort(int('00100001', 2))
         bts += pack_ushort(65)
         bts += get_ascii_bytes(self.header_id, 65, justify_left=True)
-- 
2.43.0


From e424e5c1dc938f23e9a440cabd680ef7cc9c20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:43 +0000
Subject: [PATCH 26/36] fix: refuse set names which are not text; do not make
 two unnamed sets of one type

---
 src/dliswriter/file/eflr_sets_dict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index e44d3aa..e41c91b 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -53,6 +53,10 @@ class EFLRSetsDict(defaultdict):
             An EFLRSet instance of given subtype and name, registered in the structure.
         """
 
+        if set_name is not None and not isinstance(set_name, str):
+            raise TypeError(f"Set name must be a str; got {type(set_name)}: {set_name}")
+        set_name = set_name or None  # a set with an empty name is written as an unnamed one
+
         # dict mapping set names on EFLRSet (subclass) instances
         eflr_set_dict: dict[Union[str, None], AnyEFLRSet] = self[eflr_set_type]
 
-- 
2.43.0


From 870fd9d6479a3a2aeab16b8f11c38f21b50e23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:01 +0000
Subject: [PATCH 27/36] fix: respect an explicit origin reference of 0

---
 src/dliswriter/file/file.py | 49 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 269f5bc..f4bfe98 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -359,6 +359,11 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _choose_origin_reference(self, origin_reference: Optional[int]) -> Union[int, None]:
+        """Return the origin reference specified by the user. If there is none, return the default one."""
+
+        return self.default_origin_reference if origin_reference is None else origin_reference
+
     @property
     def channels(self) -> list[eflr_types.ChannelItem]:
         """Channels defined for the DLIS."""
@@ -422,7 +427,7 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return ax
@@ -499,7 +504,7 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -579,7 +584,7 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -722,7 +727,7 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return m
@@ -813,7 +818,7 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         if data is not None:
@@ -879,7 +884,7 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -952,7 +957,7 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -1070,7 +1075,7 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return eq
@@ -1184,7 +1189,7 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return fr
@@ -1231,7 +1236,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return g
@@ -1332,7 +1337,7 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return ln
@@ -1384,7 +1389,7 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return m
@@ -1434,7 +1439,7 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return nf
@@ -1465,7 +1470,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1608,7 +1613,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1710,7 +1715,7 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return p
@@ -1834,7 +1839,7 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return p
@@ -1911,7 +1916,7 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return p
@@ -1964,7 +1969,7 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return sp
@@ -2026,7 +2031,7 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return t
@@ -2117,7 +2122,7 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return w
@@ -2179,7 +2184,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return z
-- 
2.43.0


From 8c7df40d2abafee503ec849e18b892fcd8154f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:01 +0000
Subject: [PATCH 28/36] fix: do not assign the origin of one logical file to
 objects of other logical files

---
 src/dliswriter/file/file.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index f4bfe98..d352a6f 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1649,11 +1649,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
-- 
2.43.0


From dc4def06a6c6fa09e6e4ef269a96c90779e47235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 29/36] fix: include the object type in the source reference of
 a computation

---
 src/dliswriter/logical_record/eflr_types/computation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/computation.py b/src/dliswriter/logical_record/eflr_types/computation.py
index 52ad2fd..9990518 100644
--- a/src/dliswriter/logical_record/eflr_types/computation.py
+++ b/src/dliswriter/logical_record/eflr_types/computation.py
@@ -5,7 +5,7 @@ from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, DimensionedIt
 from dliswriter.logical_record.eflr_types.axis import AxisSet
 from dliswriter.logical_record.eflr_types.zone import ZoneSet
 from dliswriter.logical_record.eflr_types.long_name import LongNameSet
-from dliswriter.utils.internal.internal_enums import EFLRType
+from dliswriter.utils.internal.internal_enums import EFLRType, RepresentationCode as RepC
 from dliswriter.logical_record.core.attribute import (EFLRAttribute, NumericAttribute, DimensionAttribute,
                                                       EFLROrTextAttribute, PropertiesAttribute)
 
@@ -33,7 +33,7 @@ class ComputationItem(EFLRItem, DimensionedItem):
         self.axis = EFLRAttribute('axis', object_class=AxisSet, multivalued=True)
         self.zones = EFLRAttribute('zones', object_class=ZoneSet, multivalued=True)
         self.values = NumericAttribute('values', multivalued=True, multidimensional=True)
-        self.source = EFLRAttribute('source')
+        self.source = EFLRAttribute('source', representation_code=RepC.OBJREF)
 
         super().__init__(name, parent=parent, **kwargs)
 
-- 
2.43.0


From af5eaa660b41e7b10c28cfa10a65da4ee6878bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 30/36] fix: give distinct copy numbers to same-named objects
 from differently named sets of one type

---
 src/dliswriter/file/eflr_sets_dict.py           | 12 +++++++++---
 .../logical_record/core/eflr/eflr_item.py       | 17 +++++++++++++----
 .../logical_record/core/eflr/eflr_set.py        |  1 +
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index e41c91b..916a596 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -40,6 +40,7 @@ class EFLRSetsDict(defaultdict):
             return False
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
+            eflr_set.sets_of_same_type = self[eflr_set.__class__]
             return True
 
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
@@ -88,8 +89,13 @@ class EFLRSetsDict(defaultdict):
     def set_state(self, state: dict) -> None:
         """Bring the structure back to the state obtained earlier from 'get_state'."""
 
-        self.clear()
-        for eflr_set_type, set_states in state.items():
-            self[eflr_set_type] = {name: eflr_set for name, (eflr_set, _) in set_states.items()}
+        for eflr_set_type, eflr_set_dict in list(self.items()):
+            if eflr_set_type not in state:
+                del self[eflr_set_type]
+                continue
+            set_states = state[eflr_set_type]
+            for name in list(eflr_set_dict):
+                if name not in set_states:
+                    del eflr_set_dict[name]
             for eflr_set, n_items in set_states.values():
                 eflr_set.drop_items(n_items)
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 5bcc9a7..1413468 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -60,11 +60,12 @@ class EFLRItem:
 
         self._check_parent(parent)
         self._parent = parent  #: EFLRSet instance this item belongs to
-        self._parent.register_item(self)
 
         #: origin reference value, common for records sharing origin
         self._origin_reference: Union[int, None] = self._validate_origin_reference(origin_reference, allow_none=True)
 
+        self._parent.register_item(self)
+
         #: copy number of the item - ith EFLRItem of the same name and type
         self._copy_number = self._compute_copy_number()
 
@@ -113,10 +114,18 @@ class EFLRItem:
         return v
 
     def _compute_copy_number(self) -> int:
-        """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
+        """Compute copy number of this ELFRItem: the next one after those of other objects of the same type and name.
+
+        All sets of the given type (in the logical file) are considered because objects are not identified by set names.
+        """
 
-        items_with_the_same_name = filter(lambda o: o.name == self.name, self.parent.get_all_eflr_items())
-        return len(list(items_with_the_same_name)) - 1
+        copy_numbers = (
+            item.copy_number
+            for eflr_set in self.parent.sets_of_same_type.values()
+            for item in eflr_set.get_all_eflr_items()
+            if item is not self and item.name == self.name
+        )
+        return max(copy_numbers, default=-1) + 1
 
     @classmethod
     def _check_parent(cls, parent: "EFLRSet") -> None:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 29c9fbb..14d61bf 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -31,6 +31,7 @@ class EFLRSet(LogicalRecord):
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
+        self.sets_of_same_type: dict[Optional[str], EFLRSet] = {set_name: self}  # (also) in the same logical file
 
     def __str__(self) -> str:
         """Represent the EFLRSet instance as str."""
-- 
2.43.0


From 049299c4219e3c268315dd976b281a4879dc0e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:56 +0000
Subject: [PATCH 31/36] fix: do not share sets between logical files

---
 src/dliswriter/file/eflr_sets_dict.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 916a596..a5be8f5 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -34,10 +34,16 @@ class EFLRSetsDict(defaultdict):
         self[eflr_set.__class__][eflr_set.set_name] = eflr_set
 
     def try_add_set(self, eflr_set: EFLRSet) -> bool:
-        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise."""
+        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise.
+
+        An EFLRSet which already contains items belongs to another structure (logical file). It cannot be shared.
+        """
 
         if eflr_set.set_name in self[eflr_set.__class__]:
             return False
+        elif eflr_set.n_items:
+            raise RuntimeError(f"{eflr_set} is already used in another logical file; objects of the same type "
+                               f"should be put in sets of different names in each of the logical files")
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
             eflr_set.sets_of_same_type = self[eflr_set.__class__]
-- 
2.43.0


From d6efd59c25b8ebfe03bfd9ba6bedf44820295d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:31 +0000
Subject: [PATCH 32/36] fix: refuse to write references to objects of other
 logical files, unknown origins, or ambiguous identities

---
 src/dliswriter/file/file.py | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index d352a6f..ae53e3c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -2190,6 +2190,44 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_identities_and_references()
+
+    def _check_identities_and_references(self) -> None:
+        """Check that objects are uniquely identified and that all they refer to is defined in this logical file."""
+
+        header = self.file_header_item
+        if header.parent.n_items != 1:
+            raise RuntimeError(f"Expected 1 file header in its set; got {header.parent.n_items}")
+
+        items: list[EFLRItem] = [header]
+        for set_type in self._eflr_sets:
+            items.extend(self._eflr_sets.get_all_items_for_set_type(set_type))
+
+        item_ids = {id(item) for item in items}
+        origin_references = {origin.origin_reference for origin in self.origins}
+        identities = set()
+
+        for item in items:
+            if item.origin_reference not in origin_references:
+                raise RuntimeError(f"Origin reference {item.origin_reference} of {item} does not correspond "
+                                   f"to any origin of the logical file")
+
+            identity = (item.parent.set_type, item.origin_reference, item.copy_number, item.name)
+            if identity in identities:
+                raise RuntimeError(f"{item} cannot be distinguished from another object of the same type and name")
+            identities.add(identity)
+
+            for attr in item.attributes.values():
+                for v in attr.flatten_list(attr.value) if isinstance(attr.value, (list, tuple)) else [attr.value]:
+                    if isinstance(v, EFLRItem) and id(v) not in item_ids:
+                        raise RuntimeError(f"{v}, which {attr.label} of {item} refers to, "
+                                           f"is not defined in the logical file")
+
+        for no_format_data in self._no_format_frame_data:
+            no_format_object = no_format_data.no_format_object
+            if not isinstance(no_format_object, eflr_types.NoFormatItem) or id(no_format_object) not in item_ids:
+                raise RuntimeError(f"{no_format_object}, which no-format data belong to, "
+                                   f"is not a no-format object defined in the logical file")
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
-- 
2.43.0


From f562a78957edf716d1ceb381e3dc02d49b7b7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:05 +0000
Subject: [PATCH 33/36] fix: warn about strings which are not allowed in the
 high-compatibility mode when it is off

---
 src/dliswriter/utils/internal/value_checkers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..8353283 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,9 +1,12 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
 
+logger = logging.getLogger(__name__)
+
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
 
@@ -18,12 +21,12 @@ def validate_string(s: str) -> str:
     if not isinstance(s, str):
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
-    if not global_config.high_compat_mode:
-        return s
-
     if HC_STRING_PATTERN.fullmatch(s) is None:
-        raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
-                         f"dashes, and underscores; got {repr(s)}")
+        message = ("In high-compatibility mode, strings can contain only uppercase characters, digits, "
+                   f"dashes, and underscores; got {repr(s)}")
+        if global_config.high_compat_mode:
+            raise ValueError(message)
+        logger.warning(message)
 
     return s
 
-- 
2.43.0


From 27fe257268a3c3abd52e5783772c78e213e785e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:05 +0000
Subject: [PATCH 34/36] fix: correct the name of the equipment type "Panel"

---
 src/dliswriter/utils/enums.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/enums.py b/src/dliswriter/utils/enums.py
index c971d3e..0cbe13f 100644
--- a/src/dliswriter/utils/enums.py
+++ b/src/dliswriter/utils/enums.py
@@ -179,7 +179,8 @@ class EquipmentType(ValidatorEnum):
     NUCLEAR_DETECTOR = "Nuclear-Detector"
     PACKER = "Packer"
     PAD = "Pad"
-    PANE = "Pane"
+    PANEL = "Panel"
+    PANE = "Panel"  # alias
     POSITIONING = "Positioning"
     PRINTER = "Printer"
     RADIOACTIVE_SOURCE = "Radioactive-Source"
-- 
2.43.0


From 2057400bf3072e7e62570ccbd96765e37da114dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:05 +0000
Subject: [PATCH 35/36] fix: keep the high-compatibility mode on until the last
 of overlapping contexts is left

---
 .../utils/high_compatibility_mode.py          | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/utils/high_compatibility_mode.py b/src/dliswriter/utils/high_compatibility_mode.py
index e85f7dc..23d7626 100644
--- a/src/dliswriter/utils/high_compatibility_mode.py
+++ b/src/dliswriter/utils/high_compatibility_mode.py
@@ -1,21 +1,35 @@
 from contextlib import contextmanager
+from threading import Lock
 from typing import Generator, Callable, Any
 import functools
 
 from dliswriter.configuration import global_config
 
 
+_lock = Lock()
+_active_contexts: list[list[bool]] = []
+
+
 @contextmanager
 def high_compatibility_mode() -> Generator:
     """Context manager. Turn on DLIS Writer's high-compatibility mode for the scope of the context."""
 
-    arch = global_config.high_compat_mode
-    global_config.high_compat_mode = True
+    with _lock:
+        context = [global_config.high_compat_mode]  # mode to be restored on leaving the context
+        _active_contexts.append(context)
+        global_config.high_compat_mode = True
 
     try:
         yield
     finally:
-        global_config.high_compat_mode = arch
+        with _lock:
+            i = next(j for j, c in enumerate(_active_contexts) if c is context)
+            del _active_contexts[i]
+            if i == len(_active_contexts):
+                global_config.high_compat_mode = context[0]
+            else:
+                # a context entered later (e.g. in another thread) is still active; it should restore the mode instead
+                _active_contexts[i][0] = context[0]
 
 
 def high_compatibility_mode_decorator(func: Callable) -> Callable:
-- 
2.43.0


From cc3fd9f4d7abeca1076db0974be49b1058e38708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:30 +0000
Subject: [PATCH 36/36] fix: check the names again when a file is written

---
 src/dliswriter/file/file.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index ae53e3c..60e92e4 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -32,6 +32,7 @@ from dliswriter.logical_record.iflr_types.no_format_frame_data import NoFormatFr
 from dliswriter.file.multi_frame_data import MultiFrameData
 from dliswriter.file.writer import DLISWriter
 from dliswriter.file.eflr_sets_dict import EFLRSetsDict
+from dliswriter.utils.internal.value_checkers import validate_string
 from dliswriter.configuration import global_config
 
 logger = logging.getLogger(__name__)
@@ -250,6 +251,8 @@ class DLISFile:
             if not self.logical_files:
                 raise RuntimeError("No logical files defined")
 
+            validate_string(self.storage_unit_label.set_identifier)
+
             for lf in self.logical_files:
                 lf.check_objects()
 
@@ -2190,8 +2193,19 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_names()
         self._check_identities_and_references()
 
+    def _check_names(self) -> None:
+        """Check the header ID and the names of all objects again - they might have been changed since the creation."""
+
+        validate_string(self.file_header.header_id)
+        validate_string(self.file_header.name)
+
+        for set_type in self._eflr_sets:
+            for item in self._eflr_sets.get_all_items_for_set_type(set_type):
+                validate_string(item.name)
+
     def _check_identities_and_references(self) -> None:
         """Check that objects are uniquely identified and that all they refer to is defined in this logical file."""
 
-- 
2.43.0

