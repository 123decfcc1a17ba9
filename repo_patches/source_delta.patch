From 340b8df0379214fa02b2f70f8c21e185f35a8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 001/148] fix: import method of the association_ln package
 relatively, so that the package imports

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index e65cd29..9b4f304 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -5,7 +5,7 @@ from ...types import choices, cosemObjectInstanceId
 from ...types.implementations import arrays, enums, bitstrings, long_unsigneds, structs
 from ... import pdu_enums as pdu
 from . import mechanism_id, authentication_mechanism_name
-import method
+from . import method
 
 
 class AccessMode(cdt.Enum, elements=(0, 1, 2, 3)):
-- 
2.43.0


From d872ed20b9879b87835a4c7855a7832e84672829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 002/148] fix: provide CosemAttributeDescriptorWithSelection,
 which association_ln, profile_generic and collection use at import

---
 src/DLMS_SPODES/types/useful_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index acd79bf..b22d398 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -929,6 +929,13 @@ class CosemAttributeDescriptor(Sequence):
     attribute_id: CosemObjectAttributeId
 
 
+@dataclass
+class CosemAttributeDescriptorWithSelection(Sequence):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
+    cosem_attribute_descriptor: CosemAttributeDescriptor
+    access_selection: SelectiveAccessDescriptor
+
+
 @dataclass
 class CosemMethodDescriptor(Sequence):
     class_id: CosemClassId
-- 
2.43.0


From 2246e44f371f7331b3a7679091e3f2dc26fc8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 003/148] fix: build the selective access descriptors with the
 constructors the migrated Sequence has

---
 .../cosem_interface_classes/association_ln/ver0.py            | 4 ++--
 .../cosem_interface_classes/profile_generic/ver1.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 9b4f304..2b49e2c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -341,7 +341,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
 
     def __set_to_collection(self):
         """add object to collection if it absense"""
-        self.object_list.selective_access = SelectiveAccessDescriptor()
+        self.object_list.selective_access = SelectiveAccessDescriptor(AccessSelector(), cdt.NullData())
         for obj_list_el in self.object_list:
             obj_list_el: ObjectListElement
             self.collection.add_if_missing(
@@ -410,7 +410,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
         """ with selection for object_list. TODO: Copypast ProfileGeneric"""
         descriptor: ut.CosemAttributeDescriptor = super(AssociationLN, self).get_attr_descriptor(value)
         if value == 2 and with_selection:
-            return CosemAttributeDescriptorWithSelection((descriptor, self.object_list.selective_access))
+            return CosemAttributeDescriptorWithSelection(descriptor, self.object_list.selective_access)
         else:
             return descriptor
 
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 233df99..5fea68a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -139,7 +139,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if value == BUFFER and with_selection:
             if self.attr_descriptor_with_selection is None:
                 self.__create_selective_access_descriptor()
-            return self.attr_descriptor_with_selection((descriptor.contents, self.buffer.selective_access.contents))
+            return self.attr_descriptor_with_selection(descriptor, self.buffer.selective_access)
         else:
             return descriptor
 
@@ -231,7 +231,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                         ut.SequenceElement('access_selection', SelectiveAccessDescriptor))
 
         self.attr_descriptor_with_selection = CosemAttributeDescriptorWithSelection
-        self.buffer.selective_access = SelectiveAccessDescriptor()
+        self.buffer.selective_access = SelectiveAccessDescriptor(AccessSelector(), EntryDescriptor())
 
     def get_capture_object_names(self) -> list[str]:
         """ return all capture object names from collection """
-- 
2.43.0


From 25026595b817e20f7493e4f09b0825613a907bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 004/148] fix: construct class identifiers and method
 descriptors in the COSEM layer the way the migrated useful types expect

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py      | 2 +-
 .../cosem_interface_classes/cosem_interface_class.py       | 7 ++++---
 .../implementations/profile_generic.py                     | 2 +-
 .../cosem_interface_classes/profile_generic/ver1.py        | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9f23150..32cb800 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1460,7 +1460,7 @@ class Collection:
             raise exc.NoObject(F"not found at least one DLMS Objects from collection with {values=}")
 
     def get_objects_by_class_id(self, value: int | CosemClassId) -> list[InterfaceClass]:
-        class_id = CosemClassId(value)
+        class_id = CosemClassId(int(value))
         return list(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values()))
 
     def get_objects_descriptions(self) -> list[tuple[cst.LogicalName, cdt.LongUnsigned, cdt.Unsigned]]:
diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 9db8c49..cc696c8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -363,9 +363,10 @@ class COSEMInterfaceClasses(ABC):
         """ TODO """
         match value:
             case int() as index:
-                return ut.CosemMethodDescriptor((CosemClassId(self.CLASS_ID.contents),
-                                                 cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
-                                                 ut.CosemObjectMethodId(index)))
+                return ut.CosemMethodDescriptor(
+                    self.CLASS_ID,
+                    cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
+                    ut.CosemObjectMethodId(index))
 
     def __hash__(self):
         return hash(self.logical_name)
diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index b0e657e..ea88372 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -61,7 +61,7 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
         # rename CaptureObjectDefinition's and adding object if it absense in collection
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             # self.collection.raise_before(obj, self)
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 5fea68a..9857c5d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -152,7 +152,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
             raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             el_value.set_name(self.collection.get_name_and_type(el_value)[0][-1])
-- 
2.43.0


From fd8ed2e1dbd37c996d747af74c45ac721d252593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 005/148] fix: check the window of the byte buffer at the
 position that is read or written

---
 src/DLMS_SPODES/types/byte_buffer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6751b06..f02e1d1 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -30,9 +30,9 @@ class ByteBuffer:
 
     def _check_space(self, space: int, pos: int = None):
         """check whether this buffer has enough `space` left for r/w op"""
-        if not pos:
+        if pos is None:
             pos = self.__pos
-        if self.remaining(pos) < space:
+        if space < 0 or pos < 0 or self.remaining(pos) < space:
             raise BufferError(F"{self} not enough more {space=}")
 
     def read(self, length: int = 1) -> memoryview:
@@ -45,7 +45,7 @@ class ByteBuffer:
                  pos: int,
                  length: int = 1) -> memoryview:
         """return view to position"""
-        self._check_space(length)
+        self._check_space(length, pos)
         ret = self.buf[pos: pos + length]
         return ret
 
@@ -61,7 +61,7 @@ class ByteBuffer:
                   pos: int,
                   length: int = None) -> int:
         """keep data to position, return length data"""
-        if not length:
+        if length is None:
             length = len(value)
         self._check_space(length, pos)
         self.buf[pos: pos + length] = value
@@ -114,7 +114,7 @@ class ByteBuffer:
 
     def set_pos(self, index):
         """set new position, with check"""
-        if 0 <= index < len(self):
+        if 0 <= index <= len(self):
             self.__pos = index
         else:
             raise IndexError(F"{self} can't set {index=}")
-- 
2.43.0


From bcf9b7b0ee81adea740c4c0820cf19b15082dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 006/148] fix: length octets of the PDU buffer are written at
 the cursor and read by their own count

---
 src/DLMS_SPODES/types/cosem_pdu.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 474a5c6..cabd744 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -2,7 +2,6 @@ from abc import ABC, abstractmethod
 from typing import Self, Type
 from dataclasses import dataclass
 from struct import pack, pack_into, Struct
-from math import log
 from .byte_buffer import ByteBuffer
 
 
@@ -17,7 +16,7 @@ def decide_len(length: int) -> int:
     elif length < 0x1_00_00_00_00:
         return 5
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return 1 + amount
 
 
@@ -34,7 +33,7 @@ class Buffer(ByteBuffer):
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
         define_length = self.get_uint8()
         if define_length & 0b10000000:
-            return self.get_uint(define_length >> 1)
+            return self.get_uint(define_length & 0b01111111)
         else:
             return define_length
 
@@ -47,19 +46,13 @@ class Buffer(ByteBuffer):
         if length < 0x80:
             return self.put_int(length)
         elif length < 0x1_00:
-            _length1.pack_into(self.buf, 0,
-                               0x81, length)
-            return 2
+            return self.write(_length1.pack(0x81, length))
         elif length < 0x1_00_00:
-            _length2.pack_into(self.buf, 0,
-                               0x82, length)
-            return 3
+            return self.write(_length2.pack(0x82, length))
         elif length < 0x1_00_00_00_00:
-            _length4.pack_into(self.buf, 0,
-                               0x84, length)
-            return 5
+            return self.write(_length4.pack(0x84, length))
         else:
-            amount = int(log(length, 256)) + 1
+            amount = (length.bit_length() + 7) // 8
             ret: int = self.put_int(0x80 + amount)
             length: bytes = length.to_bytes(amount, byteorder='big')
             return ret + self.write(length)
@@ -81,7 +74,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
-- 
2.43.0


From 726c5b94f3598328d5e5a946fbe595f9ff81dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 007/148] fix: compare PDU integers by value

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index cabd744..b754c4b 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -272,7 +272,7 @@ class INTEGER(Simple, ABC):
 
     def __gt__(self, other: Self):
         match other:
-            case INTEGER(): return self.contents > other.value
+            case INTEGER(): return int(self) > int(other)
             case _:          raise TypeError(F'Compare type is {other.__class__}, expected Digital')
 
     def __hash__(self):
-- 
2.43.0


From 293572609f56ce89d027ba58868275fca3bb5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 008/148] fix: return the indexed element of PDU arrays and
 choices

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index b754c4b..f32cf66 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -631,7 +631,7 @@ class Choice(UT):
         return len(self.value) + 1
 
     def __getitem__(self, item):
-        raise self.value[item]
+        return self.value[item]
 
 
 class _SequenceOf(UT):
@@ -669,7 +669,7 @@ class _SequenceOf(UT):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
     def __getitem__(self, item):
-        raise self.values[item]
+        return self.values[item]
 
 
 def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
-- 
2.43.0


From 17b7403a48400d80765c82a9ab5846d333015c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 009/148] fix: data values keep their own tag when the
 representation is shared by several tags

---
 src/DLMS_SPODES/types/cosem_pdu.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index f32cf66..46107ef 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -597,6 +597,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -679,6 +682,22 @@ def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
     return SequenceOf
 
 
+class DontCare(NULL):
+    """dont-care, IMPLICIT NULL"""
+
+
+class Bcd(Integer8):
+    """bcd, IMPLICIT Integer8"""
+
+
+class Enum(Unsigned8):
+    """enum, IMPLICIT Unsigned8"""
+
+
+class Float32(OctetString4):
+    """float32, IMPLICIT OCTET STRING(SIZE(4))"""
+
+
 class Data(Choice):
     ELEMENTS = """define after, because has link to Self"""
 
@@ -694,7 +713,7 @@ Data.ELEMENTS = (
         ChoiceElement("octet-string",          9, OctetString),
         # ChoiceElement(name="visible-string",        10, VisibleString),
         # ChoiceElement(name="utf8-string",           12, UTF8String),
-        ChoiceElement("bcd",                   13, Integer8),
+        ChoiceElement("bcd",                   13, Bcd),
         ChoiceElement("integer",               15, Integer8),
         ChoiceElement("long",                  16, Integer16),
         ChoiceElement("unsigned",              17, Unsigned8),
@@ -702,11 +721,11 @@ Data.ELEMENTS = (
         # ChoiceElement("compact-array",         19, ...),
         ChoiceElement("long64",                20, Integer64),
         ChoiceElement("long64-unsigned",       21, Unsigned64),
-        ChoiceElement("enum",                  22, Unsigned8),
-        ChoiceElement("float32",               23, OctetString4),
+        ChoiceElement("enum",                  22, Enum),
+        ChoiceElement("float32",               23, Float32),
         ChoiceElement("float64",               24, OctetString8),
         ChoiceElement("date-time",             25, OctetString12),
         ChoiceElement("date",                  26, OctetString5),
         ChoiceElement("time",                  27, OctetString4),
-        ChoiceElement("dont-care",             255, NULL)
+        ChoiceElement("dont-care",             255, DontCare)
     )
-- 
2.43.0


From 4b0279f237d969c9450a1ddde60c6f56535763dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 010/148] fix: octet strings of the service types keep the
 octets they are given

---
 src/DLMS_SPODES/types/useful_types.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index b22d398..8632b01 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -145,11 +145,7 @@ class OctetString(UT):
     value: bytes
 
     def __init__(self, value: bytes):
-        length, pdu = get_length_and_pdu(value)
-        if length <= len(pdu):
-            self.value = pdu[:length]
-        else:
-            raise ValueError(F"for {self.__class__.__name__} got {length=}, but content length only: {len(pdu)}")
+        self.value = value
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
@@ -207,7 +203,7 @@ class OctetString5(ConstSizeMixin, OctetString):
 class OctetString6(ConstSizeMixin, OctetString):
     @classmethod
     def SIZE(cls) -> int:
-        return 5
+        return 6
 
 
 class OctetString8(ConstSizeMixin, OctetString):
-- 
2.43.0


From 64883c46bb358a8b5a8c3a9ae4a960a8ba70580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 011/148] fix: decode service integers from all of their octets

---
 src/DLMS_SPODES/types/useful_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 8632b01..655752e 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -627,7 +627,9 @@ class INTEGER(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes):
-        return cls(int.from_bytes(value[0:1], "big", signed=cls.SIGNED))
+        if cls.LENGTH > len(value):
+            raise ValueError(F"for {cls.__name__} got content length={len(value)}, expected at least {cls.LENGTH}")
+        return cls(int.from_bytes(value[:cls.LENGTH], "big", signed=cls.SIGNED))
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 28ce37d26f0b7353fc33d187b044105eafac558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 012/148] fix: decode and encode the fields of service
 sequences

---
 src/DLMS_SPODES/types/useful_types.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 655752e..df64c76 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -71,7 +71,7 @@ class UT(ABC):
 
 
 def get_instance_and_context(meta: Type[UT], value: bytes) -> tuple[UT, bytes]:
-    instance = meta(value)
+    instance = meta.from_contents(value)
     return instance, value[len(instance.contents):]
 
 
@@ -85,8 +85,8 @@ class Sequence(UT, ABC):
     @property
     def contents(self):
         data = bytearray()
-        for it in astuple(self, tuple_factory=iter):
-            data.extend(it.contents)
+        for f in fields(self):
+            data.extend(getattr(self, f.name).contents)
         return bytes(data)
 
     @classmethod
@@ -95,8 +95,6 @@ class Sequence(UT, ABC):
         for f in fields(cls):
             new, value = get_instance_and_context(f.type, value)
             values.append(new)
-            if not len(value):
-                break
         return cls(*values)
 
     def __str__(self):
@@ -110,7 +108,7 @@ class Sequence(UT, ABC):
     #     return F'{self.__class__.__name__}(({(", ".join(map(str, self.values)))}))'
 
     def __len__(self):
-        return len(astuple(self))
+        return len(fields(self))
 
     @property
     def NAME(self) -> str:
-- 
2.43.0


From 97d08f269b45c31497371a6aa4ab7e2835635c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 013/148] fix: accept the texts of a service boolean

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index df64c76..7913dd2 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -479,9 +479,9 @@ class BOOLEAN(UT):
     @classmethod
     def from_str(cls, value: str):
         match value:
-            case "0", "False":
+            case "0" | "False":
                 return FALSE
-            case "1", "True":
+            case "1" | "True":
                 return TRUE
             case _:
                 raise ValueError(F"for {cls.__name__}.from_str got unknown {value=}")
-- 
2.43.0


From 1038aa5183cbc5cc3333697b3b7f49de5247a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 014/148] fix: keep the elements of a bit string integers

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 7913dd2..3b21b8c 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -543,11 +543,11 @@ class BitString(UT):
         return ''.join(map(str, self.value))
 
     def __setitem__(self, key: int, value: int | bool):
-        self.value[key] = value
+        self.value[key] = int(value)
 
     def inverse(self, index: int):
         """ inverse one bit by index"""
-        self.value[index] = not self.value[index]
+        self.value[index] = int(not self.value[index])
 
     # def __lshift__(self, other):
     #     for i in range(other):
-- 
2.43.0


From a1b4520c6cc8bd7cea16d28db6ecd4ca3810ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 015/148] fix: refuse truncated length octets

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 src/DLMS_SPODES/types/useful_types.py      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6b003b4..9fdce81 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,6 +67,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F"got length octets: {len(input_pdu)}, expected {content_start}")
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 3b21b8c..68f1175 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -41,6 +41,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F"got length octets: {len(input_pdu)}, expected {content_start}")
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From dc827db5ca532e0178d36bb3459567271f738019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 016/148] fix: count the length octets without floating point

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 src/DLMS_SPODES/types/useful_types.py      | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9fdce81..19b5607 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -4,7 +4,7 @@ from struct import pack, unpack
 from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, TypeAlias, Self
 from collections import deque
-from math import log, ceil
+from math import ceil
 import datetime
 import logging
 from ..config_parser import config
@@ -53,7 +53,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 68f1175..39f92f0 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -3,7 +3,6 @@ from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, Self, TypeAlias
 from struct import pack
 from dataclasses import dataclass, astuple, asdict, field, fields
-from math import log
 from ..types import common_data_types as cdt
 from ..exceptions import DLMSException
 from ..config_parser import get_values
@@ -27,7 +26,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
-- 
2.43.0


From a6a403834cf53b381849b46c47a7d41c82a79f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 017/148] fix: service data keep their own tag when the
 representation is shared by several tags

---
 src/DLMS_SPODES/types/useful_types.py | 33 ++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 39f92f0..82df1db 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -346,6 +346,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -940,6 +943,30 @@ class CosemMethodDescriptor(Sequence):
     method_id: CosemObjectMethodId
 
 
+class DontCare(Null):
+    """dont-care, IMPLICIT NULL"""
+    __slots__ = tuple()
+
+    @classmethod
+    def from_contents(cls, value: bytes) -> Self:
+        return DONT_CARE
+
+    @classmethod
+    def from_str(cls, value: str):
+        return DONT_CARE
+
+
+DONT_CARE = DontCare()
+
+
+class Bcd(Integer8):
+    """bcd, IMPLICIT Integer8"""
+
+
+class Enum(Unsigned8):
+    """enum, IMPLICIT Unsigned8"""
+
+
 class Data(Choice):
     ELEMENTS = (
         ChoiceElement(name="null-data",             tag=0,  type=Null),
@@ -952,7 +979,7 @@ class Data(Choice):
         ChoiceElement(name="octet-string", tag=9, type=OctetString),
         ChoiceElement(name="visible-string",        tag=10, type=VisibleString),
         ChoiceElement(name="utf8-string",           tag=12, type=UTF8String),
-        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
+        ChoiceElement(name="bcd",                   tag=13, type=Bcd),
         ChoiceElement(name="integer",               tag=15, type=Integer8),
         ChoiceElement(name="long",                  tag=16, type=Integer16),
         ChoiceElement(name="unsigned",              tag=17, type=Unsigned8),
@@ -960,11 +987,11 @@ class Data(Choice):
         # ChoiceElement(name="compact-array",         tag=19, type=...),
         ChoiceElement(name="long64",                tag=20, type=Integer64),
         ChoiceElement(name="long64-unsigned",       tag=21, type=Unsigned64),
-        ChoiceElement(name="enum",                  tag=22, type=Unsigned8),
+        ChoiceElement(name="enum",                  tag=22, type=Enum),
         # ChoiceElement(name="float32",               tag=23, IMPLICIT   OCTET STRING (SIZE(4)),
         # ChoiceElement(name="float64",               tag=24,  IMPLICIT   OCTET STRING (SIZE(8)),
         # ChoiceElement(name="date-time",             tag=25,  IMPLICIT   OCTET STRING (SIZE(12)),
         # ChoiceElement(name="date",                  tag=26,  IMPLICIT   OCTET STRING (SIZE(5)),
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
-        ChoiceElement(name="dont-care",             tag=255, type=Null)
+        ChoiceElement(name="dont-care",             tag=255, type=DontCare)
     )
-- 
2.43.0


From da766c2e3411ce9ae12633671a1f944cf912ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 018/148] fix: take the rest after a data value by its received
 length octets

---
 src/DLMS_SPODES/types/common_data_types.py | 28 ++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 19b5607..901e034 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -218,17 +218,31 @@ def get_common_data_type_from(tag: bytes) -> Type[CommonDataType]:
         raise ValueError(F'type with tag:{tag[:1]} is absence in Common Data Type')
 
 
+_const_sizes: dict[int, int] = {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4}
+"""contents length by tag for the types of constant size"""
+
+
+def _skip(value: bytes) -> bytes:
+    """return the rest of value after its first data, by the length octets which received"""
+    tag = value[0]
+    if (size := _const_sizes.get(tag)) is not None:
+        return value[1 + size:]
+    length, pdu = get_length_and_pdu(value[1:])
+    match tag:
+        case 1 | 2:
+            for _ in range(length):
+                pdu = _skip(pdu)
+            return pdu
+        case 4: return pdu[ceil(length / 8):]
+        case _: return pdu[length:]
+
+
 def get_instance_and_pdu(meta: Type[CommonDataType], value: bytes) -> tuple[CommonDataType, bytes]:
-    instance = meta(value)
-    return instance, value[len(instance.encoding):]
+    return meta(value), _skip(value)
 
 
 def get_instance_and_pdu_from_value(value: bytes | bytearray) -> tuple[CommonDataType, bytes]:
-    instance = get_common_data_type_from(value[:1])(value)
-    try:    # TODO: remove it in future
-        return instance, value[len(instance.encoding):]
-    except Exception as e:
-        print(F'{e.args}')
+    return get_common_data_type_from(value[:1])(value), _skip(value)
 
 
 class SimpleDataType(CommonDataType, ABC):
-- 
2.43.0


From 1b548a8071a7b2a2c40c45ae18cf75aad58bd53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 019/148] fix: treat the deviation of a date-time as signed

---
 src/DLMS_SPODES/types/common_data_types.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 901e034..9e36761 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2041,7 +2041,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             match dev:
                 case '':  return b'\x80\x00'
                 case '-': return b'\x00\x00'
-                case _ if dev.isdigit() and -720 <= int(dev) <= 720:   return pack('>H', int(dev))
+                case _ if dev.removeprefix('-').isdigit() and -720 <= int(dev) <= 720:   return pack('>h', int(dev))
                 case _:           raise ValueError
 
         match value.split(sep=' ', maxsplit=2):
@@ -2054,9 +2054,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def from_datetime(self, value: datetime.datetime) -> bytes:
         """ convert from build to DLMS datetime, weekday not set for uniquely datetime """
         match value.utcoffset():
-            case None: deviation = 0x8000
-            case _:    deviation = value.utcoffset().seconds // 60
-        return pack('>HBBBBBBBH',
+            case None: deviation = -0x8000
+            case _:    deviation = value.utcoffset() // datetime.timedelta(minutes=1)
+        return pack('>HBBBBBBBh',
                     value.year,
                     value.month,
                     value.day,
@@ -2090,7 +2090,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def decode(self) -> datetime.datetime:
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        deviation = deviation_highbyte*256 + deviation_lowbyte
+        deviation = int.from_bytes((deviation_highbyte, deviation_lowbyte), "big", signed=True)
         return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
@@ -2098,15 +2098,15 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
                                  minute=minute if minute != 0xff else 0,
                                  second=second if second != 0xff else 0,
                                  microsecond=hundredths*10000 if hundredths != 0xff else 0,
-                                 tzinfo=datetime.timezone.utc if deviation == 0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
+                                 tzinfo=datetime.timezone.utc if deviation == -0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
 
     @property
     def time_zone(self) -> datetime.timezone | None:
         """ Return timezone from deviation """
-        deviation = self.contents[9]*256 + self.contents[10]
-        if deviation == 0x8000:
+        deviation = int.from_bytes(self.contents[9:11], "big", signed=True)
+        if deviation == -0x8000:
             return None
-        elif -720 <= deviation >= 720:
+        elif -720 <= deviation <= 720:
             return datetime.timezone(datetime.timedelta(minutes=deviation))
         else:
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
-- 
2.43.0


From f8897390371301d1485d530c5182d22efd3de89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 020/148] fix: compare the day of week only with a fully
 specified date

---
 src/DLMS_SPODES/types/common_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9e36761..a1a15bf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -833,9 +833,11 @@ class __Date(ABC):
             value[0:2].replace(b'\xff\xff', b'\x01\x00') + \
             value[2:4].replace(b'\xff', b'\x01').replace(b'\xfe', b'\x01').replace(b'\xfd', b'\x01') + \
             value[4:5].replace(b'\xff', b'\x01')
+        if not 1 <= day_of_week <= 7:
+            raise ValueError(F'got weekday={day_of_week}, must be: 1..7, ff')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
-                value[2:3] not in b'\xfd\xfe\xff' and value[2:3] not in b'\xfd\xfe\xff':
+                value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
 
     @property
-- 
2.43.0


From 70355148728e65b90a13890cf154f9f136c0c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 021/148] fix: refuse hundredths of a second above 99

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a1a15bf..9eba01b 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -997,7 +997,8 @@ class __Time(ABC):
             case _ as wrong_value:                    raise ValueError(F"got hundredths={wrong_value} from {self.TAG} contents, must be: 0..99, ff")
 
     def check_time(self):
-        datetime.time(*tuple(self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')))
+        hour, minute, second, hundredths = self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')
+        datetime.time(hour, minute, second, hundredths * 10_000)
 
     @property
     def strftime(self) -> str:
-- 
2.43.0


From c435cb0ff77a73553a1052e3cdfb32e7a4a2289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 022/148] fix: let clear() reset the contents of date, time,
 float, boolean and bcd values

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9eba01b..e4c5451 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -666,7 +666,7 @@ class Float(ABC):
         return str(self.decode())
 
     def clear(self):
-        self.contents = bytes(len(self))
+        self.__dict__['contents'] = bytes(len(self))
 
 
 class LIST(ABC):
@@ -747,7 +747,7 @@ class __DateTime(ABC):
         """"""
 
     def clear(self):
-        self.contents = self.DEFAULT
+        self.__dict__['contents'] = self.DEFAULT
 
 
 class __Date(ABC):
@@ -1470,7 +1470,7 @@ class Boolean(SimpleDataType):
         return False if self.contents == b'\x00' else True
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     def __int__(self):
         return 0 if self.contents == b'\x00' else 1
@@ -1737,7 +1737,7 @@ class Bcd(SimpleDataType):
         return self.TAG + self.contents
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     @property
     def contents_length(self) -> int: return 1
-- 
2.43.0


From 78c1c485298ee07c5ae3856c78431f8d541e235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 023/148] fix: set the clock status octet of a date-time

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e4c5451..9aec214 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2079,7 +2079,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def set_clock_status(self, value: str | int):
         """ now only set value """
-        self.contents = self.contents[:12] + int(value).to_bytes(1, 'big')
+        self.set(bytearray(self.contents[:11] + int(value).to_bytes(1, 'big')))
 
     def __str__(self):
         match unpack('>h', self.contents[9:11])[0]:
-- 
2.43.0


From 3ff92bc4d2789a0514147d9247886109aaedb5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 024/148] fix: refuse contents of a wrong length for dates and
 times

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9aec214..0385b23 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -691,7 +691,7 @@ class __DateTime(ABC):
                     case _ as wrong_tag:
                         raise ValueError(F"got {TAG(wrong_tag)}, expected {self.TAG} type")
             case None:                                                                 self.clear()
-            case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == len(self):                                self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                                self.contents = self.from_str(value)
             case datetime.datetime():                                                  self.contents = self.from_datetime(value)
             case datetime.date():                                                      self.contents = self.from_date(value)
-- 
2.43.0


From d88f20b6f9487dee977031d47b204b8d97df4c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 025/148] fix: refuse contents of a wrong length for fixed-size
 data

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0385b23..2fc1fa3 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -430,7 +430,7 @@ class Digital(ABC):
                     case self.TAG:                                                     raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                         F'{self.LENGTH}, but got {len(length_and_contents)}')
                     case _ as wrong_tag:                                               raise ValueError(F'Expected {self.TAG} type, got {TAG(wrong_tag)}')
-            case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == self.LENGTH:                                    self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str('-') if self.SIGNED:                                              self.contents = bytes(self.LENGTH)
             case int() | float():                                                      self.contents = self.from_int(value)
             case str():                                                                self.contents = self.from_str(value)
@@ -605,7 +605,7 @@ class Float(ABC):
                     case self.TAG, _:                                              raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                     F'{len(self)}, but got {len(length_and_contents)}')
                     case _ as wrong_tag, _:                                        raise ValueError(F'Expected {self.TAG} type, got {get_common_data_type_from(wrong_tag).TAG}')
-            case bytearray():                                                      self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == len(self):                                  self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                            self.contents = self.from_str(value)
             case int():                                                            self.contents = self.from_float(float(value))
             case float():                                                          self.contents = self.from_float(value)
@@ -1427,7 +1427,7 @@ class Boolean(SimpleDataType):
         match value:
             case None:                                                       self.clear()
             case bytes():                                                    self.contents = self.from_bytes(value)
-            case bytearray():                                                self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == 1:                              self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
             case bool():                                                     self.contents = self.from_bool(value)
@@ -1717,7 +1717,7 @@ class Bcd(SimpleDataType):
         match value:  # TODO: replace priority case
             case None: bytes(self.contents_length)
             case bytes():                                                    self.contents = self.from_bytes(value)
-            case bytearray():                                                self.contents = bytes(value)
+            case bytearray() if len(value) == 1:                              self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
             case Bcd():                                                      self.contents = value.contents
-- 
2.43.0


From 43c4c83bdf59f5d3dd571f248580103bcc63db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 026/148] fix: store and read floats as IEEE 754

---
 src/DLMS_SPODES/types/common_data_types.py | 27 ++++------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 2fc1fa3..a173e31 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -4,7 +4,7 @@ from struct import pack, unpack
 from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, TypeAlias, Self
 from collections import deque
-from math import ceil
+from math import isfinite, ceil
 import datetime
 import logging
 from ..config_parser import config
@@ -629,32 +629,13 @@ class Float(ABC):
 
     def from_float(self, value: float) -> bytes:
         """ Input float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7 """
-        if 'inf' in str(value):
+        if not isfinite(value):
             raise OverflowError(F'Float overflow error')
-        hex_string = value.hex()
-        sign, mantissa_and_exponent = hex_string.split('0x')
-        sign = 1 << (len(self) * 8 - 1) if sign else 0
-        mantissa, exponent = mantissa_and_exponent.split('p')
-        integer, fraction = mantissa.split('.')
-        integer = int(integer, base=16)
-        exponent = (int(exponent) + 2 ** (len(self) - 1) - 1)
-        if exponent >= 2 ** self.exponent_wide:
-            raise OverflowError(F'Exponent overflow error')
-        exponent <<= self.fraction_wide if integer else 0
-        fraction_quartet_amount = ceil(self.fraction_wide / 4)
-        offset = fraction_quartet_amount*4 - self.fraction_wide
-        fraction = int(fraction[:fraction_quartet_amount], base=16) >> offset
-        return (sign + exponent + fraction).to_bytes(len(self), 'big')
+        return pack('>f' if len(self) == 4 else '>d', value)
 
     def decode(self) -> float:
         """  return the build in float type IEEE 60559"""
-        sign = self.contents[0] >> 7
-        exponent = (int.from_bytes(self.contents[:2], 'big') & 0x7fff) >> (15 - self.exponent_wide)
-        fraction = int.from_bytes(self.contents[1:], 'big') & (1 << self.fraction_wide)-1
-        ret = 2 ** (exponent - 2**(self.exponent_wide-1)+1) * (1 + fraction/(1 << self.fraction_wide))
-        if sign:
-            ret *= -1
-        return ret
+        return unpack('>f' if len(self) == 4 else '>d', self.contents)[0]
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-- 
2.43.0


From 1e04dc140aae78e8e2cbcaad71f5cad7c18c872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 027/148] fix: convert scaled values and decimal texts to
 integers without loss

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a173e31..400c495 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -469,7 +469,7 @@ class Digital(ABC):
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-                case ScalUnitType(): value *= 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler())
+                case ScalUnitType(): value = round(value * 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler()))
                 case None:           """ no scaler """
                 case _ as error:     raise ValueError(F'Unknown scaler_unit: {error}')
             return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
@@ -477,7 +477,11 @@ class Digital(ABC):
             raise ValueError(F'value {value} out of range')
 
     def from_str(self, value: str) -> bytes:
-        return self.from_int(float(value))
+        try:
+            number = int(value)
+        except ValueError:
+            number = float(value)
+        return self.from_int(number)
 
     def clear(self):
         if self.DEFAULT:
-- 
2.43.0


From 9050dfff71fe869413e81c64bb8ffc92f2baf837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 028/148] fix: pop the last element of an array by default

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 400c495..9ae19a1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -306,7 +306,7 @@ class __Array(ABC):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-        return self.values.pop(index)
+        return self.values.pop() if index is None else self.values.pop(index)
 
     def __len__(self):
         return len(self.values)
-- 
2.43.0


From 425f41d26a01ff94cdc94f258e81f00f4f003df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 029/148] fix: keep the elements of an array when set is
 refused

---
 src/DLMS_SPODES/types/common_data_types.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9ae19a1..805cc77 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1144,16 +1144,21 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
-        self.clear()
         if hasattr(self, 'cb_preset'):
             self.cb_preset(value)
         new_array = Array(value, type_=self.TYPE)
+        previous = self.values.copy()
+        self.clear()
         if self.TYPE is None and len(new_array) != 0:
             self.set_type(new_array[0].__class__)
         else:
             """TYPE already initiated"""
-        for el in new_array:
-            self.append(self.TYPE(el))
+        try:
+            for el in new_array:
+                self.append(self.TYPE(el))
+        except Exception:
+            self.values[:] = previous
+            raise
         if hasattr(self, 'cb_post_set'):
             self.cb_post_set()
 
-- 
2.43.0


From cdd79574fff1e5b705282aa96c27bb4929a9d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 030/148] fix: build a bit string from contents octets

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 805cc77..658dbba 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1479,7 +1479,7 @@ class BitString(SimpleDataType):
                 self.contents = new_instance.contents
                 self.__length = len(new_instance)
             case bytes():                               self.contents = self.from_bytes(value)
-            case bytearray():                           self.from_bytearray(value)
+            case bytearray():                           self.contents = self.from_bytearray(value)
             case str():                                 self.contents = self.from_str(value)
             case int():                                 self.contents = self.from_int(value)
             case list():                                self.contents = self.from_list(value)
-- 
2.43.0


From b2faf1c5d2005c8e9bcad1b6c14018ea330daf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 031/148] fix: refuse unknown texts of a boolean

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 658dbba..9e12eb3 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1448,6 +1448,8 @@ class Boolean(SimpleDataType):
         elif value == '1' or 'True'.startswith(value.title()) or 'Правда'.startswith(value.title()) or \
                 'Yes'.startswith(value.title()) or 'Да'.startswith(value.title()):
             return b'\x01'
+        else:
+            raise ValueError(F"for create {self.TAG} got unknown text: {value}")
 
     def from_bool(self, value: bool) -> bytes:
         return b'\x01' if value else b'\x00'
-- 
2.43.0


From 33cfb5836e6de7286d06e9bad3836b520fdd203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 032/148] fix: give the default bcd value contents

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9e12eb3..1c16d93 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1707,7 +1707,7 @@ class Bcd(SimpleDataType):
 
     def __init__(self, value: bytes | bytearray | str | int | Self = None):
         match value:  # TODO: replace priority case
-            case None: bytes(self.contents_length)
+            case None:                                                       self.clear()
             case bytes():                                                    self.contents = self.from_bytes(value)
             case bytearray() if len(value) == 1:                              self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
-- 
2.43.0


From 3962ff21b4880a3e8b613aa85e915b07f9ba9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 033/148] fix: check all elements before a structure is set

---
 src/DLMS_SPODES/types/common_data_types.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 1c16d93..97ec13a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1310,8 +1310,13 @@ class Structure(ComplexDataType):
         self.__dict__["NAME"] = value
 
     def set(self, value: bytes | bytearray | tuple | list | None):
-        for index, el_value in enumerate(self.get_types()(value)):
-            self[index].set(el_value)
+        new_values = self.get_types()(value).values
+        if len(new_values) != len(self.values):
+            raise ValueError(F"for {self.__class__.__name__} got {len(new_values)} elements, expected {len(self.values)}")
+        for el, el_value in zip(self.values, new_values):
+            el.get_types()(el_value)
+        for el, el_value in zip(self.values, new_values):
+            el.set(el_value)
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 365fd0a7f655a459dd3a16169f981c4f6b2766f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 034/148] fix: search the nearest earlier date over every month
 and day

---
 src/DLMS_SPODES/types/common_data_types.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 97ec13a..8db4367 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2115,24 +2115,23 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ search and return date(datetime format) in left from point """
         l_point: datetime.datetime = self.decode()
         """ time in left from point """
-        months = range(point.month, 0, -1) if self.month is None else (self.month,)
-        """ months sequence from 12 to 1 with start from current month or self month """
-        days = range(point.day, 0, -1) if self.day is None else (self.day,)
-        """ days sequence from 31 to 1 with start from current day or self day """
-        for year in range(point.year, datetime.MINYEAR, -1) if self.year is None else (self.year, ):
-            l_point = l_point.replace(year=year)
+        months = range(12, 0, -1) if self.month is None else (self.month,)
+        """ months sequence from 12 to 1 or self month """
+        days = range(31, 0, -1) if self.day is None else (self.day,)
+        """ days sequence from 31 to 1 or self day """
+        for year in range(point.year, datetime.MINYEAR - 1, -1) if self.year is None else (self.year, ):
             for month in months:
-                l_point = l_point.replace(month=month)
                 for day in days:
-                    l_point = l_point.replace(day=day)
+                    try:
+                        l_point = l_point.replace(year=year, month=month, day=day)
+                    except ValueError:  # no such day in the month
+                        continue
                     if l_point > point:
                         continue
                     elif self.weekday is not None and self.weekday != (l_point.weekday() + 1):
                         continue
                     else:
                         return l_point
-                days = range(31, 0, -1) if self.day is None else point.day,
-            months = range(12, 0, -1) if self.month is None else point.month,
         return None
 
     def get_left_nearest_datetime(self, point: datetime.datetime) -> datetime.datetime | None:
-- 
2.43.0


From f2a6bbc408f1fb5a0de0a754e8e0d10831111d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 035/148] fix: return None when there is no earlier date-time

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8db4367..cee9c86 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2138,10 +2138,10 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ search and return datetime in left from point """
         l_point: datetime.datetime = self.get_left_nearest_date(point)
         """ time in left from point """
-        is_this_day: bool = l_point.date() == point.date()
-        """ flag of points equaling """
         if l_point is None:
             return None
+        is_this_day: bool = l_point.date() == point.date()
+        """ flag of points equaling """
         for hour in range(point.hour if is_this_day else 23, -1, -1) if self.hour is None else (self.hour,):
             l_point = l_point.replace(hour=hour)
             for minute in range(point.minute if is_this_day and l_point.hour == point.hour else 59, -1, -1) if self.minute is None else (self.minute,):
-- 
2.43.0


From 74d190a2f8b40961f35387413d9375cdecd346f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 036/148] fix: search from the time fields alone, so that the
 29th of February is found

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index cee9c86..c680978 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2113,7 +2113,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def get_left_nearest_date(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return date(datetime format) in left from point """
-        l_point: datetime.datetime = self.decode()
+        l_point: datetime.datetime = self.__class__(bytearray(b'\xff\xff\xff\xff\xff' + self.contents[5:])).decode()
         """ time in left from point """
         months = range(12, 0, -1) if self.month is None else (self.month,)
         """ months sequence from 12 to 1 or self month """
-- 
2.43.0


From d6a8185ccdeeb86b0854434e746dee140c7ba3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 037/148] fix: build a structure from another one by its
 elements

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c680978..d2e62c2 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1196,7 +1196,7 @@ class Structure(ComplexDataType):
                 for el in self.ELEMENTS:
                     self.values.append(el.TYPE())
             case bytearray():              self.from_content(bytes(value))
-            case Structure():              self.from_content(value.contents)
+            case Structure():              self.from_bytes(value.encoding)
             # case Structure():              self.__from_sequence(value)
             case _:                        raise ValueError(F'for {self.__class__.__name__} "{value=}" not supported')
 
-- 
2.43.0


From aca51319e0390780ae94b1a923cfbceb759dff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 038/148] fix: refuse to insert a duplicate into an array of
 unique elements

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d2e62c2..94995c8 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -303,6 +303,8 @@ class __Array(ABC):
 
     def insert(self, index: int, element: CommonDataType):
         if isinstance(element, self.TYPE):
+            if getattr(self, "unique", False) and element in self.values:
+                raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-- 
2.43.0


From 9843a0a3454d12e4336fcf506483f3a83b2d6d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 039/148] fix: refuse HDLC frames longer than the 11-bit length
 field

---
 src/DLMS_SPODES/hdlc/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index aa5e1a2..b73688f 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -38,7 +38,7 @@ class Format:
                 if self.type != 0xA:
                     raise FormatDataError(F'Frame format type not according HDLC Type 3, must be 0xA, got {hex(self.type)}')
         else:
-            if length.bit_length() <= 13:
+            if length.bit_length() <= 11:
                 value = length
                 if is_segmentation:
                     value |= 0b1010_1_00000000000
@@ -46,7 +46,7 @@ class Format:
                     value |= 0b1010_0_00000000000
                 self.__content = pack('>H', value)
             else:
-                raise ValueError(F'Frame length overflow, max be 2048, got {length}')
+                raise ValueError(F'Frame length overflow, max be 2047, got {length}')
 
     @property
     def content(self) -> bytes:
-- 
2.43.0


From 334f5073e3552d6b1a1d28c287ebf28f9da9c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 040/148] fix: refuse HDLC addresses outside 0..16383

---
 src/DLMS_SPODES/hdlc/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index b73688f..a175716 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -114,6 +114,9 @@ class Address:
             else:
                 self.__content = content
         else:
+            for it in (upper_address, lower_address or 0):
+                if not 0 <= it <= 0x3fff:
+                    raise ValueError(F"got address {it}, expected (0..16383)")
             # calculate length
             if not lower_address:
                 if (upper_address & self.__MASK) == 0:
-- 
2.43.0


From a3487fb045ac488c3418fb9133974a846062e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 041/148] fix: treat an HDLC frame too short for its fields as
 a wrong frame

---
 src/DLMS_SPODES/hdlc/frame.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index a175716..e31496f 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -155,7 +155,7 @@ class Address:
     @classmethod
     def from_frame(cls, value: bytearray) -> Address:
         for it in (0, 1, 3):
-            if value[it] % 2 == 1:
+            if it < len(value) and value[it] % 2 == 1:
                 match it:
                     case 0: new = cls(bytes(value[:1])); break
                     case 1: new = cls(bytes(value[:2])); break
@@ -550,6 +550,8 @@ class Control(IntFlag):
 
     @classmethod
     def from_frame(cls, value: bytearray) -> Control:
+        if len(value) == 0:
+            raise ValueError('HDLC control field is absence')
         return Control(value.pop(0))
 
     @property
-- 
2.43.0


From 50963318983bb30734599bf9064226c99fbb4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 042/148] fix: join HDLC segments by send number whatever their
 poll/final bit

---
 src/DLMS_SPODES/hdlc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index e31496f..80c3f9e 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -813,7 +813,7 @@ class Frame:
 
     def is_next_send(self, other: Frame) -> bool:
         """ return TRUE if frame is next information frame of current. Other must be previous. """
-        return self.__control == Control.next_send_sequence(other.control)
+        return (self.__control | 0x10) == (Control.next_send_sequence(other.control) | 0x10)
 
     @staticmethod
     def join_info(frames: Deque[Frame]) -> bytearray:
-- 
2.43.0


From 8880d456420dd71f99ec2db2bbeabd6320b70895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 043/148] fix: send the receive window in SNRM

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index d4b99b6..71441af 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -120,7 +120,7 @@ class Negotiation(Info):
         if self.window_transmit != WINDOW_DEFAULT:
             window_pack(self.WINDOW_SIZE_TRANSMIT, self.window_transmit)
         if self.window_receive != WINDOW_DEFAULT:
-            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_transmit)
+            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_receive)
         if offset == 3:
             offset = 0
         else:
-- 
2.43.0


From ca63d2eff24a0e26d46cc6aabc66580b82224b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 044/148] fix: make room for all negotiation parameters

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 71441af..e05215e 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -4,7 +4,7 @@ from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
 
-MAX_CONTENT_LENGTH = 0x16
+MAX_CONTENT_LENGTH = 0x17
 FORMAT_IDENTIFIER = 0x81
 GROUP_IDENTIFIER = 0x80
 MAX_INFO_DEFAULT = 128
-- 
2.43.0


From a6ba6bf65f4ed4efce1e2b68d69a16dd722f168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 045/148] fix: build SNRM from the current parameters

---
 src/DLMS_SPODES/hdlc/negotiation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index e05215e..de610c6 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import cached_property
 from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
@@ -72,12 +71,10 @@ class Negotiation(Info):
                                 case wrong_tag:
                                     raise ValueError(F"got {wrong_tag=}, expected ")
             self.max_info_receive, self.max_info_transmit, self.window_receive, self.window_transmit = i_rx, i_tx, w_rx, w_tx
-            if hasattr(self, "SNRM"):
-                del self.SNRM
         except IndexError as e:
             raise ValueError(F"got wrong UA {content.hex(' ')}")
 
-    @cached_property
+    @property
     def SNRM(self) -> memoryview:
         def small_pack(field: int, data: int):
             nonlocal buf, offset
-- 
2.43.0


From b2ef43a4ce68dc78e32b34e92acf92ce5279a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 046/148] fix: refuse a UA with a cut parameter

---
 src/DLMS_SPODES/hdlc/negotiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index de610c6..03da6ed 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -29,6 +29,8 @@ class Negotiation(Info):
         """set from UA info"""
         def get_max_information_field(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) < 1 + data_len:
+                raise ValueError(F"got max information field length {data_len}, but rest {len(data) - 1}")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_MAX_INFO_FIELD_LENGTH <= ret <= MAX_MAX_INFO_FIELD_LENGTH:
                 return ret, memoryview(data[1 + data_len:])
@@ -37,6 +39,8 @@ class Negotiation(Info):
 
         def get_window_size(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) < 1 + data_len:
+                raise ValueError(F"got window size length {data_len}, but rest {len(data) - 1}")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_WINDOW_SIZE <= ret <= MAX_WINDOW_SIZE:
                 return ret, memoryview(data[1 + data_len:])
-- 
2.43.0


From 6c85b4b475459c02b025b363594c21cb9a1bb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 047/148] fix: find the packaged config.toml

---
 src/DLMS_SPODES/config_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/config_parser.py b/src/DLMS_SPODES/config_parser.py
index 6ef84dd..10cd128 100644
--- a/src/DLMS_SPODES/config_parser.py
+++ b/src/DLMS_SPODES/config_parser.py
@@ -38,7 +38,7 @@ def get_values2(*args: str) -> tuple[str, int]:
 
 
 if not os.path.isfile(path := ".//config.toml"):
-    path = F"{os.path.dirname(__file__)}{path}"
+    path = F"{os.path.dirname(__file__)}/{path}"
 elif not os.path.isfile(path):
     logger.warning("NOT FIND CONFIGURATION: <config.toml>")
 with open(path, "rb") as f:
-- 
2.43.0


From f73f7a574c4551e2473877c6f5b14135066be82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 048/148] fix: order versions without patch number before those
 with it

---
 src/DLMS_SPODES/version.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index eba8e65..3372c39 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -64,7 +64,7 @@ class AppVersion:
             return False
         if self.__patch is None:
             return False
-        elif self.__patch > other.patch:
+        elif other.patch is None or self.__patch > other.patch:
             return True
         else:
             return False
@@ -78,8 +78,10 @@ class AppVersion:
             return True
         elif self.__minor < other.minor:
             return False
-        if self.__patch is None:
+        if other.patch is None:
             return True
+        elif self.__patch is None:
+            return False
         elif self.__patch > other.patch:
             return True
         elif self.__patch < other.patch:
-- 
2.43.0


From a77e5c58d0982fb5b113f044e39d015e5fd2f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 049/148] fix: search the nearest version also among versions
 without patch number

---
 src/DLMS_SPODES/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index 3372c39..e3eb432 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -108,4 +108,4 @@ class AppVersion:
 
     def select_nearest(self, variants: list[AppVersion]) -> AppVersion | None:
         """ select left nearest from list in minor branch else return None """
-        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.patch <= self.__patch, variants), default=None)
+        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and self >= var, variants), default=None)
-- 
2.43.0


From c40d6525a3253d0cf28a37a7579469799285c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 050/148] fix: read only decimal digits in versions

---
 src/DLMS_SPODES/version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index e3eb432..dad7c55 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -18,7 +18,7 @@ class AppVersion:
     def from_str(cls, value: str):
         match value.split(sep='.', maxsplit=2):
             case (major, minor, patch):
-                match major.isdigit(), minor.isdigit(), patch.isdigit():
+                match major.isdecimal(), minor.isdecimal(), patch.isdecimal():
                     case True, True, True:                        return cls(int(major), int(minor), int(patch))
                     case True, True, False:
                         patch_seq = bytearray(patch, 'utf-8')
@@ -29,7 +29,7 @@ class AppVersion:
                         return cls(int(major), int(minor), int(patch_seq[:digit_pos]), patch_seq[digit_pos:].decode())
                     case _:                                      return cls(0, 0, 0)
             case (major, minor):
-                match major.isdigit(), minor.isdigit():
+                match major.isdecimal(), minor.isdecimal():
                     case True, True:                        return cls(int(major), int(minor))
                     case _:                                      return cls(0, 0)
             case _:                                              return cls(0, 0, 0)
-- 
2.43.0


From a64ef18f77f090a9f6c852c14dbfafcdb4bd99c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 051/148] fix: look up the rows of the class table for value
 group C by value group C

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 32cb800..3a995a9 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -559,7 +559,7 @@ def get_type(class_id: CosemClassId,
                 c_m = func_map.get((ln.contents[:5]), None)
                 if not c_m:
                     # try search in C group
-                    c_m = func_map.get((ln.contents[:1]+ln.contents[3:4]), common_interface_class_map)
+                    c_m = func_map.get((ln.contents[:1]+ln.contents[2:3]), common_interface_class_map)
     return get_interface_class(class_map=c_m,
                                c_id=class_id,
                                ver=version)
-- 
2.43.0


From afae2f0207a6f70b091de9c301d51ac6b0b1355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 052/148] fix: give the SPODES 3 phase rotation object its
 value type

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 3a995a9..104343d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -487,7 +487,7 @@ __func_map_for_create.update({
     (0, 96, 3, 20): ClassMap({0: impl.arbitrator.SPODES3Arbitrator}),
     (0, 96, 5, 1): ClassMap({0: impl.data.SPODES3PowerQuality1Event}),
     (0, 96, 5, 4): ClassMap({0: impl.data.SPODES3PowerQuality2Event}),
-    (0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
+    (0, 0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
     (0, 96, 11, 0): ClassMap({0: impl.data.SPODES3VoltageEvent}),
     (0, 96, 11, 1): ClassMap({0: impl.data.SPODES3CurrentEvent}),
     (0, 96, 11, 2): ClassMap({0: impl.data.SPODES3CommutationEvent}),
-- 
2.43.0


From a1934694666b0f9ec1b864efe63b02044f3553fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 053/148] fix: give GSM diagnostic version 1 its version

---
 src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
index b4b2ac4..cc1eff6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
@@ -27,6 +27,7 @@ class AdjacentCells(cdt.Array):
 
 
 class GSMDiagnostic(ver0.GSMDiagnostic):
+    VERSION = Version.V1
     A_ELEMENTS = (ver0.GSMDiagnostic.get_attr_element(2),
                   ver0.GSMDiagnostic.get_attr_element(3),
                   ver0.GSMDiagnostic.get_attr_element(4),
-- 
2.43.0


From 16cc0ddfea5c33a20386634daac321615846bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 054/148] fix: look up the version of a class in the collection
 asked

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 104343d..0551d3f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1404,7 +1404,6 @@ class Collection:
                 logger.warning(F'Dont remove with: {logical_name}')
                 return False
 
-    @lru_cache(maxsize=100)  # amount of all classID
     def find_version(self, class_id: CosemClassId) -> cdt.Unsigned:
         """use for add new object from profile_generic if absence in object list"""
         return next(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values())).VERSION
-- 
2.43.0


From 5ef9771d0903621f584784f8f0c993fe5d58f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 055/148] fix: do not keep objects that left the collection

---
 .../cosem_interface_classes/collection.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 0551d3f..4883ba4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, cached_property, lru_cache
+from functools import reduce, lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1510,11 +1510,11 @@ class Collection:
         else:
             return obj
 
-    @cached_property
+    @property
     def LDN(self) -> impl.data.LDN:
         return self.__get_object(o.LDN)
 
-    @cached_property
+    @property
     def current_association(self) -> AssociationLN:
         return self.__get_object(o.CURRENT_ASSOCIATION)
 
@@ -1524,7 +1524,7 @@ class Collection:
     def getAssociationBySAP(self, SAP: enums.ClientSAP) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, self.get_association_id(SAP), 255)))
 
-    @cached_property
+    @property
     def PUBLIC_ASSOCIATION(self) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, 1, 255)))
 
@@ -1547,7 +1547,7 @@ class Collection:
     def getIECHDLCSetup(self, ch: int = 0) -> IECHDLCSetup:
         return self.__get_object(bytes((0, ch, 22, 0, 0, 255)))
 
-    @cached_property
+    @property
     def TCP_UDP_setup(self) -> TCPUDPSetup:
         return self.__get_object(bytes((0, 0, 25, 0, 0, 255)))
 
@@ -1574,7 +1574,7 @@ class Collection:
     def firmware_version(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 2, 255)))
 
-    @cached_property
+    @property
     def device_type(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 1, 255)))
 
-- 
2.43.0


From c52da62e6d74a53ebba4fed9334fd22653fb2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 056/148] fix: answer questions about access from the object
 list of the collection asked

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4883ba4..9a0b71d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1691,7 +1691,6 @@ class Collection:
         else:
             raise ValueError(F"object with {ln} is not {ScriptTable.CLASS_ID}")
 
-    @lru_cache(4)
     def get_association_id(self, client_sap: enums.ClientSAP) -> int:
         """return id(association instance) from it client address without current"""
         for ass in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
@@ -1702,7 +1701,6 @@ class Collection:
         else:
             raise ValueError(F"absent association with {client_sap}")
 
-    @lru_cache(maxsize=1000)
     def is_readable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1714,7 +1712,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_writable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1726,7 +1723,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_accessible(self, ln: cst.LogicalName,
                       index: int,
                       association_id: int,
-- 
2.43.0


From b12f4a2f195c926bd60317827c80797569e68630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 057/148] fix: look up the name and type of a capture object in
 the collection asked

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9a0b71d..1819daa 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1736,7 +1736,6 @@ class Collection:
             m_id=m_id
         )
 
-    @lru_cache(maxsize=100)
     def get_name_and_type(self, value: structs.CaptureObjectDefinition) -> tuple[list[str], Type[cdt.CommonDataType]]:
         """ return names and type of element from collection"""
         names: list[str] = list()
-- 
2.43.0


From 8187ec4b25a716f7177b4878ce86e8d804dc307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 058/148] fix: treat a country or server type that is set but
 false as set

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1819daa..e72621f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -675,7 +675,7 @@ class Collection:
         return self.__country
 
     def set_country(self, value: CountrySpecificIdentifiers):
-        if not self.__country:
+        if self.__country is None:
             self.__country = value
         else:
             if value != self.__country:
@@ -702,7 +702,7 @@ class Collection:
         return self.__server_type
 
     def set_server_type(self, value: cdt.CommonDataTypes, force: bool = False):
-        if not self.__server_type or force:
+        if self.__server_type is None or force:
             self.__server_type = value
         else:
             if value != self.__server_type:
-- 
2.43.0


From 0aa2669dd3cbe47d0a2d64bfb14c3f71bd25d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 059/148] fix: compare server versions without patch number

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index e72621f..e9b9b76 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -723,7 +723,7 @@ class Collection:
         else:
             if value.major != self.__server_ver[instance].major or value.minor != self.__server_ver[instance].minor:
                 raise ValueError(F"attempt set server version[{instance}]: {value}, existed {self.__server_ver[instance]}. Execute search of type")
-            elif value.patch <= self.__server_ver[instance].patch:
+            elif value <= self.__server_ver[instance]:
                 """success validation"""
             else:
                 raise ValueError(F"got more hi patch: {value} expected before {self.__server_ver[instance].patch}")
-- 
2.43.0


From 1d831812403403f8a7f2ebdefedac671577e089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 060/148] fix: set the specification of a meter without version
 of instance 0

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index e9b9b76..d3ec5be 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1319,7 +1319,7 @@ class Collection:
             if self.country_ver == AppVersion(3, 0):
                 self.__spec = "SPODES_3"
             if self.manufacturer == b"KPZ":
-                if self.server_ver and self.server_ver.get(0) < AppVersion(1, 3, 30):
+                if self.server_ver.get(0) is not None and self.server_ver.get(0) < AppVersion(1, 3, 30):
                     self.__spec = "KPZ1"
                 else:
                     self.__spec = "KPZ"
-- 
2.43.0


From 15d554214ee90c6d4bf061d5a75e9cf8f0ffcd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 061/148] fix: compare authentication mechanisms by number

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 2b49e2c..deed965 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -494,7 +494,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             case pdu.MethodAccess.AUTHENTICATED_ACCESS:
                 if not m_id:
                     m_id = self.authentication_mechanism_name.mechanism_id_element
-                if m_id >= mechanism_id.LOW:
+                if int(m_id) >= int(mechanism_id.LOW):
                     return True
                 else:
                     return False
-- 
2.43.0


From 28218390463940e40d7da86afca0d2b1c3510def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 062/148] fix: method next_period belongs to DemandRegister

---
 .../cosem_interface_classes/demand_register/ver0.py  | 12 +++++++++++-
 src/DLMS_SPODES/cosem_interface_classes/register.py  |  4 +---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index c484bb5..78df2bc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -15,7 +15,9 @@ class DemandRegister(ic.COSEMInterfaceClasses):
                   ic.ICAElement("start_time_current", cst.OctetStringDateTime, classifier=ic.Classifier.DYNAMIC),
                   ic.ICAElement("period", cdt.DoubleLongUnsigned, min=1),
                   ic.ICAElement("number_of_periods", cdt.LongUnsigned, min=1, default=1))
-    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
+    M_ELEMENTS = (
+        ic.ICMElement("reset", integers.Only0),
+        ic.ICMElement("next_period", integers.Only0))
     scaler_unit_not_settable: bool
 
     @property
@@ -50,6 +52,14 @@ class DemandRegister(ic.COSEMInterfaceClasses):
     def number_of_periods(self) -> cdt.LongUnsigned:
         return self.get_attr(9)
 
+    @property
+    def reset(self) -> integers.Only0:
+        return self.get_meth(1)
+
+    @property
+    def next_period(self) -> integers.Only0:
+        return self.get_meth(2)
+
     def characteristics_init(self):
         self._cbs_attr_post_init.update({2: lambda: self.__set_value_data_type(2),
                                          3: lambda: self.__set_value_data_type(3),
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index 1d78b4f..b0680c0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -12,9 +12,7 @@ class Register(ic.COSEMInterfaceClasses):
     scaler_unit_not_settable: bool
     A_ELEMENTS = (ic.ICAElement("value", choices.register, classifier=ic.Classifier.NOT_SPECIFIC),
                   ic.ICAElement("scaler_unit", cdt.ScalUnitType))
-    M_ELEMENTS = (
-        ic.ICMElement("reset", integers.Only0),
-        ic.ICMElement("next_period", integers.Only0))
+    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
 
     def characteristics_init(self):
         self._cbs_attr_post_init.update({2: self.__set_value_data_type,
-- 
2.43.0


From 9ec37257db49289b205581a6e2edf11c26fcccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 063/148] fix: accessors of the methods of SecuritySetup
 version 1

---
 .../security_setup/ver1.py                      | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
index 98cf732..62fbf3c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
@@ -140,17 +140,26 @@ class SecuritySetup(ver0.SecuritySetup):
     def key_transfer(self) -> KeyTransferData:
         return self .get_meth(2)
 
+    @property
     def key_agreement(self) -> KeyAgreement:
         return self .get_meth(3)
 
-    def generate_certificate_request(self) -> KeyPair:
+    @property
+    def generate_key_pair(self) -> KeyPair:
         return self .get_meth(4)
 
-    def import_certificate(self) -> cdt.OctetString:
+    @property
+    def generate_certificate_request(self) -> KeyPair:
         return self .get_meth(5)
 
-    def export_certificate(self) -> CertificateIdentification:
+    @property
+    def import_certificate(self) -> cdt.OctetString:
         return self .get_meth(6)
 
-    def remove_certificate(self) -> CertificateIdentification:
+    @property
+    def export_certificate(self) -> CertificateIdentification:
         return self .get_meth(7)
+
+    @property
+    def remove_certificate(self) -> CertificateIdentification:
+        return self .get_meth(8)
-- 
2.43.0


From 9a877d2639b5d3934a3efe0d36d62cd6a13f82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 064/148] fix: set a structure of a type and a dependent value
 as a whole

---
 src/DLMS_SPODES/types/choices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/choices.py b/src/DLMS_SPODES/types/choices.py
index 43dc184..f9e110b 100644
--- a/src/DLMS_SPODES/types/choices.py
+++ b/src/DLMS_SPODES/types/choices.py
@@ -117,6 +117,9 @@ class StructureMixin:
         super(StructureMixin, self).__init__(value)
         self.values[0].register_cb_preset(raise_error)
 
+    def set(self, value: bytes | tuple | list | None | bytearray | Self):
+        self.__dict__["values"] = self.__class__(value).values
+
     def from_sequence(self, sequence: tuple):
         if len(sequence) != len(self):
             raise ValueError(F'Struct {self.__class__.__name__} got length:{len(sequence)}, expected length:{len(self)}')
-- 
2.43.0


From 7eef5cc2477bf95eab0ed03dc81b302959d4562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 065/148] fix: return the encoded value of an attribute that is
 already set

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index cc696c8..65abbce 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -229,7 +229,8 @@ class COSEMInterfaceClasses(ABC):
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
             ret = attr.copy()
-            return ret.set(value)
+            ret.set(value)
+            return ret
 
     def set_attr(self,
                  index: int,
-- 
2.43.0


From 549900412efb33a304c6868418844ba6e2b7a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 066/148] fix: copy static attribute values instead of sharing
 them

---
 src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 65abbce..6c34044 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -168,6 +168,7 @@ class COSEMInterfaceClasses(ABC):
                 if source.collection is not None and self.get_attr_element(i).classifier == Classifier.STATIC and not source.collection.is_writable(ln=self.logical_name,
                                                                                                                                                     index=i,
                                                                                                                                                     association_id=association_id):
+                    value = value.copy()
                     # Todo: may be callbacks inits remove?
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
-- 
2.43.0


From 511a3fea50d355e5a8cb4bc1dfbfe6b3c43a01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 067/148] fix: refuse numbers of attributes and methods that do
 not exist

---
 .../cosem_interface_classes/cosem_interface_class.py       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 6c34044..2726f87 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -193,11 +193,14 @@ class COSEMInterfaceClasses(ABC):
         """return element by order index. Override in each new class"""
         match i:
             case 1: return _LN_ELEMENT
+            case _ if i < 1: raise IndexError(F"not support index={i} as attribute")
             case _: return cls.A_ELEMENTS[i - 2]
 
     @classmethod
     def get_meth_element(cls, i: int) -> ICElement:
         """ implement in subclasses with methods """
+        if i < 1:
+            raise IndexError(F"not support index={i} as method")
         return cls.M_ELEMENTS[i - 1]
 
     @abstractmethod
@@ -282,9 +285,13 @@ class COSEMInterfaceClasses(ABC):
             raise IndexError(F'not support {index=} as attribute')
 
     def get_record_time(self, index: int) -> cdt.DateTime | None:
+        if index < 2:
+            raise IndexError(F"not support {index=} as attribute with record time")
         return self.__record_time[index-2]
 
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
+        if index < 2:
+            raise IndexError(F"not support {index=} as attribute with record time")
         self.__record_time[index-2] = cdt.DateTime(value)
 
     def get_index_with_attributes(self) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
-- 
2.43.0


From ed59492b714ef16b3d3b3f35710d48cf19fea45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 068/148] fix: initiate a cleared attribute in the same way as
 the first time

---
 .../cosem_interface_classes/cosem_interface_class.py          | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 2726f87..05d2322 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -172,11 +172,9 @@ class COSEMInterfaceClasses(ABC):
                     # Todo: may be callbacks inits remove?
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
-                        self._cbs_attr_before_init.pop(i)
                     self.__attributes[i-1] = value
                     if cb_func := self._cbs_attr_post_init.get(i, None):
                         cb_func()
-                        self._cbs_attr_post_init.pop(i)
                 else:
                     if isinstance(arr := self.__attributes[i-1], cdt.Array):
                         arr.set_type(value.TYPE)
@@ -246,11 +244,9 @@ class COSEMInterfaceClasses(ABC):
             new_value = data_type(value)
             if cb_func := self._cbs_attr_before_init.get(index, None):
                 cb_func(new_value)
-                self._cbs_attr_before_init.pop(index)
             self.__attributes[index-1] = new_value
             if cb_func := self._cbs_attr_post_init.get(index, None):
                 cb_func()
-                self._cbs_attr_post_init.pop(index)
             else:
                 """without callback post init"""
         else:
-- 
2.43.0


From 08be60cf77c44d3db3fe15b3218335637d5a8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 069/148] fix: copy attribute values of objects of any class

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d3ec5be..b9c1c51 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1482,7 +1482,7 @@ class Collection:
         """ copy all attributes value from other and return bool result """
         try:
             obj: InterfaceClass = self.__get_object(other.get_obis())
-            for i, attr in other.get_index_with_attributes(in_init_order=True):
+            for i, attr in other.get_index_with_attributes():
                 if i == 1:
                     continue
                 else:
@@ -1495,7 +1495,7 @@ class Collection:
     def copy_objects_attr_values_from(self, other: Collection) -> bool:
         """ Copy collections values and return True if all was writen """
         if len(other) != 0:
-            return bool(reduce(lambda a, b: a or b, map(self.copy_obj_attr_values_from, other.values())))
+            return bool(reduce(lambda a, b: b and a, map(self.copy_obj_attr_values_from, other.values())))
         else:
             return False
 
-- 
2.43.0


From 80824e3f687a691320721129cb22763143372268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 070/148] fix: bind the value of a register to its present
 scaler and unit

---
 .../cosem_interface_classes/demand_register/ver0.py  | 12 ++++++------
 src/DLMS_SPODES/cosem_interface_classes/register.py  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index 78df2bc..77e4445 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -86,12 +86,12 @@ class DemandRegister(ic.COSEMInterfaceClasses):
 
     def __set_value_scaler_unit(self):
         match self.current_average_value:
-            case cdt.Digital() | cdt.Float() if self.current_average_value.SCALER_UNIT is None:  self.current_average_value.SCALER_UNIT = self.scaler_unit
-            case cdt.Digital() | cdt.Float() if self.current_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
-            case cdt.Digital() | cdt.Float():                   raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.current_average_value.SCALER_UNIT}')
+            case cdt.Digital() | cdt.Float():
+                self.current_average_value.SCALER_UNIT = None  # forget the one of a cleared attribute
+                self.current_average_value.SCALER_UNIT = self.scaler_unit
             case _:                                             """set only for digital"""
         match self.last_average_value:
-            case cdt.Digital() | cdt.Float() if self.last_average_value.SCALER_UNIT is None:  self.last_average_value.SCALER_UNIT = self.scaler_unit
-            case cdt.Digital() | cdt.Float() if self.last_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
-            case cdt.Digital() | cdt.Float():                   raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.last_average_value.SCALER_UNIT}')
+            case cdt.Digital() | cdt.Float():
+                self.last_average_value.SCALER_UNIT = None  # forget the one of a cleared attribute
+                self.last_average_value.SCALER_UNIT = self.scaler_unit
             case _:                                             """set only for digital"""
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index b0680c0..b416ef5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -46,9 +46,9 @@ class Register(ic.COSEMInterfaceClasses):
 
     def __set_value_scaler_unit(self):
         match self.value:
-            case cdt.Digital() | cdt.Float() if self.value.SCALER_UNIT is None:  self.value.SCALER_UNIT = self.scaler_unit
-            case cdt.Digital() | cdt.Float() if self.value.SCALER_UNIT == self.scaler_unit: """ already set """
-            case cdt.Digital() | cdt.Float():                                    raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.value.SCALER_UNIT}')
+            case cdt.Digital() | cdt.Float():
+                self.value.SCALER_UNIT = None  # forget the one of a cleared attribute
+                self.value.SCALER_UNIT = self.scaler_unit
             case _:                                                              """set only for digital"""
 
     def get_report(self):
-- 
2.43.0


From 502d23c9d4193dc3c1b228cb8188d33d3ff1a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 071/148] fix: insert special days with any index

---
 src/DLMS_SPODES/cosem_interface_classes/special_days_table.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index aa72f74..93cd750 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -76,7 +76,6 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
     def __set_delete(self):
         try:
             self.delete.register_cb_preset(self.entries.validate_exist_index)
-            self.insert.index.register_cb_preset(self.entries.validate_exist_index)
         except KeyError:  # At init time
             print('set delete NO:')
 
-- 
2.43.0


From f9c6944fb0c6ca8ae85144299bd97ce98cc049db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 072/148] fix: keep the permission table of an Arbitrator in
 step after clearing

---
 src/DLMS_SPODES/cosem_interface_classes/arbitrator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/arbitrator.py b/src/DLMS_SPODES/cosem_interface_classes/arbitrator.py
index 884bbfc..873a636 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/arbitrator.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/arbitrator.py
@@ -58,8 +58,8 @@ class Arbitrator(ic.COSEMInterfaceClasses):
     """name actors container"""
 
     def characteristics_init(self):
+        self._cbs_attr_post_init.update({2: self.__init_actions})
         self.set_attr(2, None)
-        self.actions.register_cb_post_set(self.__check_permission_table)
         self.set_attr(3, None)
         self.set_attr(4, None)
         self.set_attr(5, None)
@@ -92,9 +92,13 @@ class Arbitrator(ic.COSEMInterfaceClasses):
     def reset(self) -> integers.Only0:
         return self .get_meth(2)
 
+    def __init_actions(self):
+        self.actions.register_cb_post_set(self.__check_permission_table)
+        self.__check_permission_table()
+
     def __check_permission_table(self):
         """set length actor_permission be same as action array size if it not valid"""
-        if len(self.permissions_table) > 0:
+        if self.permissions_table is not None and len(self.permissions_table) > 0:
             for actor in self.permissions_table:
                 if len(actor) != len(self.actions):
                     actor.set(ActorPermissions('0'*len(self.actions)))
-- 
2.43.0


From 791e27fe564782fc7f6120f79c1e8707b9ebcbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 073/148] fix: filter objects without name patterns

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index b9c1c51..b860b1d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2269,7 +2269,7 @@ def get_filtered(objects: list[InterfaceClass],
             continue
         elif media and get_media_id(obj.logical_name) not in media:
             continue
-        elif obj.logical_name not in patterns:
+        elif patterns and obj.logical_name not in patterns:
             continue
         new_list.append(obj)
     return new_list
-- 
2.43.0


From 7d3420df287afa4c9b8c960fff1df2015d8936a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 074/148] fix: filter objects by medium

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index b860b1d..444807c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2247,16 +2247,16 @@ class LNPattern:
 def get_filtered(objects: list[InterfaceClass],
                  keys: tuple[CosemClassId | media_id.MediaId | LNPattern, ...]) -> list[InterfaceClass]:
     c_ids: list[CosemClassId] = list()
-    media: list[int] = list()
+    media: list[media_id.MediaId] = list()
     group: list[int] = list()
     patterns: list[LNPattern] = list()
-    medias = tuple(m.subgroup for m in RelationGroups)
+    medias = tuple(m.subgroup for m in (*RelationGroups, media_id.Reserved))
     for k in keys:
         if isinstance(k, CosemClassId):
             c_ids.append(k)
-        elif isinstance(k, RelationGroup):
+        elif isinstance(k, media_id.MediaId):
             if (s_g := k.subgroup) in medias:
-                media.append(s_g)
+                media.append(k)
             else:
                 group.append(s_g)
         elif isinstance(k, LNPattern):
-- 
2.43.0


From ad39006c162d3c1f78bddfbd46c76335177598bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 075/148] fix: find the group of payment, twisted pair and gas
 objects

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 444807c..bb8d9bf 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2315,7 +2315,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 18 and ln.d == 0:
             return media_id.ARRAY_MANAGER_OBJECT
         elif ln.c == 19:
-            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or ln.d in (range(50, 60) and ln.e in (1, 2)):
+            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or (ln.d in range(50, 60) and ln.e in (1, 2)):
                 return media_id.PAYMENT_METERING_RELATED_OBJECTS
         elif ln.c == 20 and ln.d == 0 and ln.e in (0, 1):
             return media_id.IEC_LOCAL_PORT_SETUP_OBJECTS
@@ -2324,7 +2324,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 22 and ln.d == 0 and ln.e == 0:
             return media_id.IEC_HDLC_SETUP_OBJECTS
         elif ln.c == 23:
-            if (ln.d in 0, 1, 2 and ln.e == 0) or ln.d == 3:
+            if (ln.d in (0, 1, 2) and ln.e == 0) or ln.d == 3:
                 return media_id.IEC_TWISTED_PAIR_1_SETUP_OBJECTS
         elif ln.c == 24:
             if (ln.d in (0, 1, 4, 5, 6) and ln.e == 0) or (ln.d in (2, 8, 9)):
@@ -2610,12 +2610,12 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
-        elif ln.c == 42 and ln.e == 0:
-            if ln.d in chain(0, 1, 2, 13, range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
+        elif ln.c == 43 and ln.e == 0:
+            if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in (0, 2, 3, 10, 11, 13, range(15, 92)) and ln.e == 0 and ln.f == 255:
+        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in chain((0, 2, 3, 10, 11, 13), range(15, 92)) and ln.e == 0 and ln.f == 255:
             return media_id.MEASURED_VALUES_GAS_PROCESS_VALUES
         elif ln.c in range(51, 56):
             if ln.d in (0, 2, 3, 10, 11) and ln.e in chain((0, 1), range(11, 29)) and ln.f == 255:
-- 
2.43.0


From cc49322f0fb4440cfb112c6ee6d52dc98145a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 076/148] fix: find the group of error registers, lists and
 profiles of heat meters

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index bb8d9bf..88d4111 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2565,7 +2565,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
             elif ln.d == 6 and ln.e == 255 and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
-        elif ln.e in range(10):
+        elif ln.c in range(8, 14) and ln.e in range(10):
             if ln.f in __range100_and_101_125_and_255:
                 if ln.c in range(1, 8) and ln.d in (5, 15):
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-- 
2.43.0


From faecac4521db8c731bfa392c605658263d66b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 077/148] fix: find the group of energy values of heat meters

---
 .../cosem_interface_classes/collection.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 88d4111..c10dbf5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2563,23 +2563,23 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
                 elif ln.d in (1, 2, 4, 5, 12, 13, 14, 15) and ln.f in chain(range(100), range(100, 126)):
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
+                elif ln.d in (5, 15, *range(20, 26)) and ln.f == 255:
+                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
             elif ln.d == 6 and ln.e == 255 and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
         elif ln.c in range(8, 14) and ln.e in range(10):
-            if ln.f in __range100_and_101_125_and_255:
-                if ln.c in range(1, 8) and ln.d in (5, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.c in (8, 9) and ln.d in (1, 4, 5, 12, 13, 14, 15):
+            if ln.d in range(20, 26) and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.c in (8, 9):
+                if ln.d in (1, 4, 5, 12, 13, 14, 15) and ln.f in __range100_and_101_125_and_255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(10, 14):
+            else:
                 if ln.d == 0 and ln.f == 255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
                 elif ln.d in (4, 5, 14, 15) and ln.f in chain(range(100), range(101, 126)):
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
                 elif ln.d in (6, 7, 10, 11) and ln.f == 255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(1, 14) and (ln.d in range(20, 26)) and ln.f == 255:
-                return media_id.MEASURED_VALUES_THERMAL_ENERGY
         elif ln.c == 97 and ln.d == 97 and ln.e in (0, 1, 2):
             return media_id.ERROR_REGISTER_OBJECTS_THERMAL
         elif ln.c == 98:
-- 
2.43.0


From 1fc0d3d2e0a3a4b1cc22bc2af29272153de71734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 078/148] fix: put objects of a known medium in no table under
 their medium

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index c10dbf5..41623a6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2663,6 +2663,9 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             return media_id.DATA_PROFILE_OBJECTS_WATER
         else:
             return media_id.WATER
+    for medium in RelationGroups:
+        if medium == ln.a:
+            return medium
     return media_id.OTHER_MEDIA
 
 
-- 
2.43.0


From d6502ee74ebf61d27ddf8345b4006104d55f39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 079/148] fix: find register monitors of electricity behind the
 threshold values

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 41623a6..5a054ae 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2500,7 +2500,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.THRESHOLD_VALUES
             elif ln.c in __table44 and ln.e in __range120_and_124_127:
                 return media_id.THRESHOLD_VALUES
-        elif ln.f in __range100_and_255:
+        if ln.f in __range100_and_255:
             if ln.d in (31, 35, 39, 4, 5, 14, 15, 24, 25):
                 if ln.c in __c1 and ln.e in __range63:
                     return media_id.REGISTER_MONITOR_OBJECTS
-- 
2.43.0


From 2793126be8672d4a2ab86f524ebb42f4e66e970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 080/148] fix: skip associations without object list in
 get_writable_attr

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 5a054ae..cdf431e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1470,6 +1470,8 @@ class Collection:
         """return all writable {obj.ln: {attribute_index}}"""
         ret: UsedAttributes = dict()
         for ass in filter(lambda it: it.logical_name.e != 0, self.get_objects_by_class_id(classID.ASSOCIATION_LN)):
+            if ass.object_list is None:
+                continue
             for list_type in ass.object_list:
                 for attr_access in list_type.access_rights.attribute_access:
                     if attr_access.access_mode.is_writable():
-- 
2.43.0


From 921ad78ca4bb1f428ff4d7b9762f450a4eaea4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 081/148] fix: accept a tuple of objects in get_object_tree

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index cdf431e..5b5d7c1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2157,7 +2157,7 @@ def get_object_tree(objects: list[InterfaceClass] | tuple[InterfaceClass],
         stack = [(None, None, ret)]
         while len(stack) != 0:
             d, k, v = stack.pop()
-            if isinstance(v, list):
+            if isinstance(v, (list, tuple)):
                 res = get_map_by_obj(v, key)
                 if d is None:
                     ret = res
-- 
2.43.0


From ca7005a1f3e023b2046302d3d97ebce09c7e5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 082/148] fix: remove empty branches of the attribute tree

---
 .../cosem_interface_classes/collection.py            | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 5b5d7c1..69f6d40 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1782,12 +1782,9 @@ class Collection:
                 mode=sort_mode),
             mode=obj_mode)
         stack = [(None, None, ret)]
+        branches: list[tuple[dict, ...]] = list()
         while len(stack) != 0:
             d, k, v = stack.pop()
-            if isinstance(d, dict):
-                for k_, v_ in tuple(d.items()):
-                    if len(v_) == 0:
-                        d.pop(k_)
             if isinstance(v, list):
                 objects = dict()
                 for obj in v:
@@ -1808,10 +1805,17 @@ class Collection:
                 else:
                     d.pop(k)
             elif isinstance(v, dict):
+                if d is not None:
+                    branches.append((d, k))
                 for k_, v_ in v.items():
                     stack.append((v, k_, v_))
             else:
                 raise ValueError('not support')
+        while len(branches) != 0:
+            """inner branches first"""
+            d, k = branches.pop()
+            if len(d[k]) == 0:
+                d.pop(k)
         return ret
 
     # def decode(self, file_name: str,
-- 
2.43.0


From ed033464046ce18193fa7f91bfbf43e712f26887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 083/148] fix: encode access parameters with their tag

---
 src/DLMS_SPODES/types/useful_types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 82df1db..12ace7f 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -920,6 +920,14 @@ class SelectiveAccessDescriptor(Sequence):
     access_selector: Unsigned8
     access_parameters: Data
 
+    @property
+    def contents(self) -> bytes:
+        """access_parameters is Data, i.e. with tag"""
+        if isinstance(self.access_parameters, cdt.CommonDataType):
+            return self.access_selector.contents + self.access_parameters.encoding
+        else:
+            return super(SelectiveAccessDescriptor, self).contents
+
 
 @dataclass
 class CosemAttributeDescriptor(Sequence):
-- 
2.43.0


From 992500280fb8f3032394e1add07ccf3e96d600a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 084/148] fix: drop a first value that its post init callback
 refuses

---
 .../cosem_interface_classes/cosem_interface_class.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 05d2322..0c25541 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -246,7 +246,11 @@ class COSEMInterfaceClasses(ABC):
                 cb_func(new_value)
             self.__attributes[index-1] = new_value
             if cb_func := self._cbs_attr_post_init.get(index, None):
-                cb_func()
+                try:
+                    cb_func()
+                except Exception:
+                    self.__attributes[index-1] = None
+                    raise
             else:
                 """without callback post init"""
         else:
-- 
2.43.0


From a443d5868786cdd3f9601131a92afb73a24ac6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 085/148] fix: keep an array as it was when a new value is
 refused

---
 src/DLMS_SPODES/types/common_data_types.py | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 94995c8..8f368c8 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1146,23 +1146,25 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
-        if hasattr(self, 'cb_preset'):
-            self.cb_preset(value)
-        new_array = Array(value, type_=self.TYPE)
-        previous = self.values.copy()
-        self.clear()
-        if self.TYPE is None and len(new_array) != 0:
-            self.set_type(new_array[0].__class__)
-        else:
-            """TYPE already initiated"""
+        previous, previous_type = self.values.copy(), self.TYPE
         try:
+            if hasattr(self, 'cb_preset'):
+                self.cb_preset(value)
+            new_array = Array(value, type_=self.TYPE)
+            self.clear()
+            if self.TYPE is None and len(new_array) != 0:
+                self.set_type(new_array[0].__class__)
+            else:
+                """TYPE already initiated"""
             for el in new_array:
                 self.append(self.TYPE(el))
+            if hasattr(self, 'cb_post_set'):
+                self.cb_post_set()
         except Exception:
             self.values[:] = previous
+            if self.TYPE is not previous_type:
+                self.__dict__['TYPE'] = previous_type
             raise
-        if hasattr(self, 'cb_post_set'):
-            self.cb_post_set()
 
 
 _struct_names = config["DLMS"]["struct_name"]
-- 
2.43.0


From 5e4368fa4b5314491bf8a039253e8bd85406e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 086/148] fix: follow every change of the capture objects

---
 .../cosem_interface_classes/profile_generic/ver1.py  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 9857c5d..f147e97 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -159,22 +159,22 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         match self.buffer.selective_access:
             case ut.SelectiveAccessDescriptor() as desc:
                 match int(desc.access_selector):
-                    # case 0:                                                 self.buffer_capture_objects = self.capture_objects
-                    case 1 if len(desc.access_parameters.selected_values) == 0: self.buffer_capture_objects = self.capture_objects
-                    case 1:                                                     self.buffer_capture_objects = desc.access_parameters.selected_values
+                    # case 0:                                                 buffer_capture_objects = self.capture_objects
+                    case 1 if len(desc.access_parameters.selected_values) == 0: buffer_capture_objects = self.capture_objects
+                    case 1:                                                     buffer_capture_objects = desc.access_parameters.selected_values
                     case 2:
                         from_selected_value = int(desc.access_parameters.from_selected_value)-1
                         to_selected_value = int(desc.access_parameters.to_selected_value)
                         if to_selected_value == 0:
                             to_selected_value = len(self.capture_objects)
-                        self.buffer_capture_objects = self.capture_objects[from_selected_value:to_selected_value]
+                        buffer_capture_objects = self.capture_objects[from_selected_value:to_selected_value]
                     case _ as err:                                                raise ValueError(F'access_selection out of range, got {err}, must be (0..2)')
             case None:
                 self.clear_attr(CAPTURE_OBJECTS)
                 self._cbs_attr_post_init[CAPTURE_OBJECTS] = self.__create_buffer_struct_type
                 raise exc.EmptyObj(F"need set <sort_object> before for {self}")
         buffer_elements: list[cdt.StructElement] = list()
-        for el_value in self.buffer_capture_objects:
+        for el_value in buffer_capture_objects:
             names, type_ = self.collection.get_name_and_type(el_value)
             buffer_elements.append(cdt.StructElement(NAME=". ".join(names), TYPE=type_))
 
@@ -187,7 +187,9 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                 (e.g. for time: if it can be calculated from the previous value and capture_period; or for a value: if it is equal to the previous value). """
             ELEMENTS = tuple(buffer_elements)
 
+        self.buffer_capture_objects = buffer_capture_objects
         self.buffer.set_type(Entry)
+        self.capture_objects.register_cb_post_set(self.__create_buffer_struct_type)
 
     def __create_selective_access_descriptor(self):
         """ Available after got sort object. TODO: need rewrite. maybe replace to collection level. Wrong used sort_obj, it can be any element from capture_objects"""
-- 
2.43.0


From 8f45fd2113d7a37836d5f7d802f9d781071fdcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 087/148] fix: follow every change of the objects of a display
 readout

---
 .../cosem_interface_classes/implementations/profile_generic.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index ea88372..0a5d7bc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -82,3 +82,4 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
             ELEMENTS = tuple(buffer_elements)
 
         self.buffer.set_type(Entry)
+        self.capture_objects.register_cb_post_set(self.__create_buffer_struct_type)
-- 
2.43.0


From 8cbadd88cbb7987254ed7c93f2f0fbd0fdd33a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:27 +0000
Subject: [PATCH 088/148] fix: give the scalers of a scaler profile in the
 order of the buffer columns

---
 .../cosem_interface_classes/profile_generic/ver1.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index f147e97..0d90f1e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -257,13 +257,15 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                 raise ValueError(F'Buffer of {scaler_profile} is empty')
             else:
                 unit_scaler_profile = scaler_profile.buffer[0]
-                for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
-                    for buffer_capture_object in self.buffer_capture_objects:
+                for buffer_capture_object in self.buffer_capture_objects:
+                    for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
                         if capture_object == buffer_capture_object:
                             match scaler_unit:
                                 case cdt.ScalUnitType(): result.append(scaler_unit)
                                 case _:                  result.append(None)
                             break
+                    else:
+                        result.append(None)
         else:
             for definition in self.buffer_capture_objects:
                 definition: structs.CaptureObjectDefinition
-- 
2.43.0


From d669b10766ed69bb88d48dcaaf988c2468991ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 089/148] fix: give an enumeration without names a default
 value

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8f368c8..77c6ddf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1872,7 +1872,7 @@ class Enum(SimpleDataType, ABC):
 
     def from_none(self):
         """first key value"""
-        return next(iter(self.ELEMENTS))
+        return b"\x00" if self.ELEMENTS is None else next(iter(self.ELEMENTS))
 
     def validation(self):
         """ check value after inited. Maybe override """
-- 
2.43.0


From 717f2bf3ca425c9b849a2ec2dfa8d693c0637539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 090/148] fix: keep server type and versions in a copy of
 collection

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 69f6d40..a1e8551 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -610,6 +610,9 @@ class Collection:
         new_collection.set_dlms_ver(self.__dlms_ver)
         new_collection.set_manufacturer(self.__manufacturer)
         new_collection.set_country_ver(self.__country_ver)
+        new_collection.set_server_type(self.__server_type)
+        for instance, ver in self.__server_ver.items():
+            new_collection.set_server_ver(instance, ver)
         new_collection.set_collection_ver(self.__collection_ver)
         new_collection.set_spec()
         max_ass: AssociationLN | None = None
@@ -2090,7 +2093,7 @@ def get_collection(
 ) -> Collection:
     """get copy of collection with caching"""
     ret = get(manufacturer, server_type, server_ver).copy()
-    ret.set_server_type(server_type)  # if xml file not contains the type
+    ret.set_server_type(server_type, force=True)  # if xml file not contains the type
     return ret
 
 
-- 
2.43.0


From 7542f0c4ba1b0ca974b809189c8e66e974054c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 091/148] fix: choose the specification of a type by its
 version when the server version is unknown

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a1e8551..712f2b2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1322,7 +1322,8 @@ class Collection:
             if self.country_ver == AppVersion(3, 0):
                 self.__spec = "SPODES_3"
             if self.manufacturer == b"KPZ":
-                if self.server_ver.get(0) is not None and self.server_ver.get(0) < AppVersion(1, 3, 30):
+                ver = self.server_ver.get(0, self.collection_ver)
+                if ver is not None and ver < AppVersion(1, 3, 30):
                     self.__spec = "KPZ1"
                 else:
                     self.__spec = "KPZ"
-- 
2.43.0


From dccca23d160bc52e8dbb4c299bce3bcbb6c3cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 092/148] fix: write the server versions in the order of their
 instances

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 712f2b2..7f4546a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1143,7 +1143,7 @@ class Collection:
             ET.SubElement(objects, 'manufacturer').text = self.manufacturer.decode("utf-8")
         if self.server_type is not None:
             ET.SubElement(objects, 'server_type').text = self.server_type.encoding.hex()
-        for ver in self.server_ver:
+        for ver in sorted(self.server_ver):
             server_ver_node = ET.SubElement(objects, 'server_ver', attrib={"instance": str(ver)})
             server_ver_node.text = str(self.server_ver[ver])
         return objects
-- 
2.43.0


From b5976f9387a742ea6e0228dd6bef6a10535d293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 093/148] fix: consider all access rights when saving a type

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 7f4546a..4838beb 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1274,7 +1274,7 @@ class Collection:
                     """"""
                 else:
                     objs[obj_el.logical_name] = set()
-                for access in obj_el.access_rights.attribute_access[1:]:  # without ln
+                for access in obj_el.access_rights.attribute_access:
                     if not access.access_mode.is_writable() and access.access_mode.is_readable():
                         objs[obj_el.logical_name].add(int(access.attribute_id))
         o2 = list()
-- 
2.43.0


From f981504a02afed98a946fa26b63181fe43ce10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 094/148] fix: retry every object of a collection that can't be
 copied yet

---
 .../cosem_interface_classes/collection.py     | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4838beb..c602e97 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -626,25 +626,17 @@ class Collection:
                     max_ass = obj
         obj_for_set = max_ass.get_objects()
         ass_id: int = max_ass.logical_name.e
-        last_length = len(obj_for_set)
-        raise_count = None
-        while len(obj_for_set) != 0:
+        failures = 0
+        """failures one after another"""
+        while failures < len(obj_for_set):
             obj = obj_for_set.pop(0)
             try:
                 new_collection.__container.get(obj.logical_name.contents).copy(obj, ass_id)
-                raise_count = None
+                failures = 0
             except Exception as e:
-                if last_length == len(obj_for_set):
-                    if not raise_count:
-                        raise_count = count(last_length, -1)
-                        continue
-                    else:
-                        next(raise_count)
-                        raise e
-                else:
-                    last_length = len(obj_for_set)
-                    logger.warning(F"can't set value. {e}. leftover {len(obj_for_set)} objects")
-                    obj_for_set.append(obj)
+                obj_for_set.append(obj)
+                failures += 1
+                logger.warning(F"can't set value. {e}. leftover {len(obj_for_set)} objects")
         return new_collection
 
     @property
-- 
2.43.0


From 3be0ccb62c0b7f1e237c35b08dc1200f1e84be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 095/148] fix: copy a collection whose first association has no
 object list

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index c602e97..52dab28 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -622,7 +622,7 @@ class Collection:
             new_collection.__container[obj.logical_name.contents] = new_obj
             new_obj.collection = new_collection
             if obj.CLASS_ID == classID.ASSOCIATION_LN:
-                if max_ass is None or (obj.object_list and len(max_ass.object_list) < len(obj.object_list)):
+                if max_ass is None or (obj.object_list and len(max_ass.object_list or ()) < len(obj.object_list)):
                     max_ass = obj
         obj_for_set = max_ass.get_objects()
         ass_id: int = max_ass.logical_name.e
-- 
2.43.0


From ebe4b40f6b40f9b98c30ae50eb4b31d275ec7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 096/148] fix: keep thresholds of the monitored type when the
 monitored value is set

---
 .../cosem_interface_classes/register_monitor.py        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 7b6b9a4..6ffb5f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -46,4 +46,12 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
         return self.get_attr(4)
 
     def __set_threshold_type(self):
-        self.thresholds.set_type(self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index)).__class__)
+        monitored = self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index))
+        if monitored is None:
+            """type is unknown"""
+        else:
+            thresholds = self.thresholds.values.copy()
+            self.thresholds.set_type(monitored.__class__)
+            if all(isinstance(el, monitored.__class__) for el in thresholds):
+                for el in thresholds:
+                    self.thresholds.append(el)
-- 
2.43.0


From a6fec9092bff3507b8605cc60b8bfdef6276f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 097/148] fix: let thresholds be set before the monitored value

---
 src/DLMS_SPODES/cosem_interface_classes/register_monitor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 6ffb5f2..aedcfa8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -5,7 +5,11 @@ threshold_scaler_unit = cdt.ScalUnitType(b'\x02\x02\x0f\x00\x16\x07')
 
 
 class Thresholds(cdt.Array):
-    TYPE = choices.simple_dt
+    """the type is that of the monitored value, or of the first threshold"""
+
+    def append_validate(self, element: cdt.CommonDataType):
+        if not isinstance(element, choices.simple_dt.get_types()):
+            raise ValueError(F"got threshold type {element.__class__.__name__}, expected simple type")
 
 
 class ActionSet(cdt.Structure):
-- 
2.43.0


From e8ef20289ea5dc6a0915f8da7df7e36b5e69e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 098/148] fix: report skipped attributes of an object copy
 after copying the others

---
 .../cosem_interface_classes/cosem_interface_class.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 0c25541..2e1502f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -160,6 +160,7 @@ class COSEMInterfaceClasses(ABC):
 
     def copy(self, source: Self, association_id: int = 3):
         """copy object according by association"""
+        skipped: exc.EmptyObj | None = None
         for i, value in source.get_index_with_attributes():
             el = self.get_attr_element(i)
             if i == 1 or value is None or (not isinstance(el.DATA_TYPE, ut.CHOICE) and el.classifier == Classifier.DYNAMIC):
@@ -185,6 +186,9 @@ class COSEMInterfaceClasses(ABC):
                             data_type=source.get_attr(i).__class__)
                     except exc.EmptyObj as e:
                         logger.warning(F"can't copy {self} attr={i}, skipped. {e}")
+                        skipped = e
+        if skipped is not None:
+            raise skipped
 
     @classmethod
     def get_attr_element(cls, i: int) -> ICAElement:
-- 
2.43.0


From afade4c4953b7c866c888c417212416d45f20608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 099/148] fix: write empty elements of arrays and structures to
 xml

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 52dab28..4330612 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1179,7 +1179,7 @@ class Collection:
                                     while stack:
                                         node, name, value_it = stack[-1]
                                         value = next(value_it, None)
-                                        if value:
+                                        if value is not None:
                                             if not isinstance(name, str):
                                                 name = next(name).NAME
                                             if isinstance(value, cdt.Array):
@@ -1928,7 +1928,7 @@ def to_xml4(collections: list[Collection],
                             while stack:
                                 node, name, value_it = stack[-1]
                                 value = next(value_it, None)
-                                if value:
+                                if value is not None:
                                     if not isinstance(name, str):
                                         name = next(name).NAME
                                     if isinstance(value, cdt.Array):
-- 
2.43.0


From 2ffa32a0ec025df1e0482476e4f3a8aab532e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 100/148] fix: show an enumeration without names as its number

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 77c6ddf..b6bb05d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1904,7 +1904,7 @@ class Enum(SimpleDataType, ABC):
             case _: super().__setattr__(key, value)
 
     def __str__(self):
-        return self.ELEMENTS[self.contents]
+        return str(int(self)) if self.ELEMENTS is None else self.ELEMENTS[self.contents]
 
     @property
     def value(self) -> str:
-- 
2.43.0


From 5244b58b86b16a1867447e4fa073bf2a5c9a4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 101/148] fix: accept units with the prefix they are shown with

---
 src/DLMS_SPODES/types/common_data_types.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b6bb05d..1fdfc0d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2300,6 +2300,15 @@ class Unit(Enum, elements=tuple(range(1, 256))):
                 else:
                     raise ValueError(F"unsupport scaler preset: {other} in Unit")
 
+    def from_str(self, value: str) -> bytes:
+        try:
+            return super(Unit, self).from_str(value)
+        except ValueError:
+            for contents in self.ELEMENTS:
+                if self.SCALERS[contents] != 0 and str(self.__class__(bytearray(contents))) == value:
+                    return contents
+            raise
+
     def get_scaler(self) -> int:
         return self.SCALERS[self.contents]
 
-- 
2.43.0


From a9e1d6486787c10f6a8b206a1a430ffee9f4f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 102/148] fix: read the verified mark of a template where it is
 written

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4330612..979fbb0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2029,7 +2029,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
-    return cols, used, bool(int(objects.findtext("verified", default="0")))
+    return cols, used, bool(int(objects.attrib.get("verified", objects.findtext("verified", default="0"))))
 
 
 if config is not None:
-- 
2.43.0


From 02b1742e64558db96b38aea8f7feb4c02351ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 103/148] fix: keep all used attributes of an object written
 from several collections

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 979fbb0..3da88ca 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1994,7 +1994,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.warning(F"got object with {ln=} not find in collection: {col}")
                     else:
                         objs.append(col.get_object(logical_name))
-                used[logical_name] = set()
+                used.setdefault(logical_name, set())
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-- 
2.43.0


From 98d982ef0b16b54f3a407e44b00cc0bf42b0e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 104/148] fix: write one version for a collection of a template

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 3da88ca..ace2630 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1886,9 +1886,9 @@ def get_base_template_xml_element(collections: list[Collection], root_tag: str =
         manufacture_node.text = col.manufacturer.decode("utf-8")
         server_type_node = ET.SubElement(manufacture_node, 'server_type')
         server_type_node.text = col.server_type.encoding.hex()
-        for ver in col.server_ver:
-            server_ver_node = ET.SubElement(server_type_node, 'server_ver', attrib={"instance": str(ver)})
-            server_ver_node.text = str(col.server_ver[ver])
+        if (ver := col.server_ver.get(0, col.collection_ver)) is not None:
+            server_ver_node = ET.SubElement(server_type_node, 'server_ver', attrib={"instance": "0"})
+            server_ver_node.text = str(ver)
     return objects
 
 
-- 
2.43.0


From 12cfe0d9c9e4294231bc80ea0c6a788a9b4b3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 105/148] fix: save settings by version of type and rights of
 the given association

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index ace2630..1a15cf8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1218,7 +1218,7 @@ class Collection:
         col = get(
             m=self.manufacturer,
             t=self.server_type,
-            ver=self.server_ver[0])
+            ver=self.server_ver.get(0, self.collection_ver))
         is_empty: bool = True
         for desc in col.getASSOCIATION(association_id).object_list:
             obj = self.get_object(desc)
@@ -1228,7 +1228,7 @@ class Collection:
                     """skip ln"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
-                elif not col.is_writable(obj.logical_name, i, 3):
+                elif not col.is_writable(obj.logical_name, i, association_id):
                     """skip not writable"""
                 elif col.get_object(obj.logical_name).get_attr(i) == attr:
                     """skip not changed attr value"""
-- 
2.43.0


From 5c47bcffb5a9b47a07881a859fc2ca1562382382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 106/148] fix: read the attributes of a saved settings file

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1a15cf8..e13a88d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1105,7 +1105,7 @@ class Collection:
                         raise ValueError(F"got object with {ln=} not find in collection. Abort attribute setting")
                     else:
                         new_object = self.get_object(logical_name)
-                        for attr in obj.findall("attr"):
+                        for attr in obj.findall("attr") + obj.findall("attribute"):
                             index: int = int(attr.attrib.get("index"))
                             try:
                                 new_object.set_attr(index, bytes.fromhex(attr.text))
-- 
2.43.0


From fc84e9aefbac09db7ad765636e1007ad0d4d7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 107/148] fix: find the current season among seasons not begun
 yet and in the time of the meter

---
 .../cosem_interface_classes/activity_calendar.py          | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index a4aea9a..1e78946 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -199,8 +199,12 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
             raise AttributeError(F'{self}: attribute Season profile is empty. Need receive it from server')
         for season in self.season_profile_active:
             season: Season
-            left_point = season.season_start.get_left_nearest_datetime(server_time)
-            if active_season[1] < left_point:
+            if season.season_start.time_zone is None:  # local time
+                left_point = season.season_start.get_left_nearest_datetime(server_time.replace(tzinfo=datetime.timezone.utc))
+                left_point = left_point and left_point.replace(tzinfo=server_time.tzinfo)
+            else:
+                left_point = season.season_start.get_left_nearest_datetime(server_time.astimezone(season.season_start.time_zone))
+            if left_point is not None and active_season[1] < left_point:
                 active_season = season, left_point
         if active_season[0] is None:
             raise AttributeError('Season Not found in Activity calendar object')
-- 
2.43.0


From e33e5399f200c90128f397f26e938270d6c18ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 108/148] fix: find the action which starts at midnight

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 1e78946..69f1909 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -245,7 +245,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         for day_profile_action in day.day_schedule:
             day_profile_action: DayProfileAction
             left_point = day_profile_action.start_time.get_left_nearest_time(server_time.time())
-            if left_point is not None and active[1] < left_point:
+            if left_point is not None and (active[0] is None or active[1] < left_point):
                 active = day_profile_action, left_point
         if active[0] is None:
             raise AttributeError('Action Not found in Activity calendar object')
-- 
2.43.0


From 075c45c142b4b5b3ed75d919acbda1fb6b72725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 109/148] fix: check the day of sunday too

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 69f1909..80acef8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -297,7 +297,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
                     weeks.append(week_profile.week_profile_name)
                 else:
                     duplicates.add(week_profile.week_profile_name)
-                for i in range(1, 7):
+                for i in range(1, 8):
                     if week_profile[i] not in days:
                         raise ic.ObjectValidationError(
                             ln=self.logical_name,
-- 
2.43.0


From 8b34e7aa44bb73db1dcde2e0c5a25fe6e1eba69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 110/148] fix: offer the last free day id

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 80acef8..7a15592 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -105,7 +105,7 @@ class DayProfileTable(cdt.Array):
     def new_element(self) -> DayProfile:
         """return default DayProfile with vacant Day ID"""
         day_ids: list[int] = [int(el.day_id) for el in self.values]
-        for i in range(0xff):
+        for i in range(0x1_00):
             if i not in day_ids:
                 return DayProfile((i, None))
         raise ValueError(F'in {self} all days ID is busy')
-- 
2.43.0


From 00d189371f156864659953fc226b93d2b00c86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 111/148] fix: recognise special days with unspecified fields

---
 .../special_days_table.py                        | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index 93cd750..0302c06 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -1,3 +1,4 @@
+import calendar
 import datetime
 from .__class_init__ import *
 
@@ -88,6 +89,19 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             raise ValueError(F'not found entry with index {self.delete} for remove')
 
+    @staticmethod
+    def __is_day(pattern: cst.OctetStringDate, date: datetime.date) -> bool:
+        """ compare with date, not specified elements are suitable to any """
+        last_day = calendar.monthrange(date.year, date.month)[1]
+        match pattern.contents[3]:
+            case 0xff:       day = None
+            case 0xfe:       day = last_day
+            case 0xfd:       day = last_day - 1
+            case _ as value: day = value
+        month = None if pattern.contents[2] == 0xff else pattern.contents[2]
+        return all(el is None or el == value for el, value in (
+            (pattern.year, date.year), (month, date.month), (day, date.day), (pattern.weekday, date.isoweekday())))
+
     def get_day_id_of_current_special_day(self, server_time: datetime.datetime = None) -> cdt.Unsigned | None:
         """ return day ID if special day if it in today else None """
         server_time = self.collection.current_time if server_time is None else server_time
@@ -96,7 +110,7 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             current_date: datetime.date = server_time.date()
             for spec_day_entry in self.entries:
-                if spec_day_entry.specialday_date.decode() == current_date:
+                if self.__is_day(spec_day_entry.specialday_date, current_date):
                     return spec_day_entry.day_id
             else:
                 return None
-- 
2.43.0


From 089f82bebc229c679bc7f07a33686678b3289b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 112/148] fix: accept the own index of a special day

---
 src/DLMS_SPODES/cosem_interface_classes/special_days_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index 0302c06..a87af2e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -26,7 +26,7 @@ class Entries(cdt.Array):
     def append_validate(self, element: SpecDayEntry):
         """validate and insert callback for validate change SpecDayEntry"""
         self.__check_index(element.index)
-        element.index.register_cb_preset(self.__check_index)
+        element.index.register_cb_preset(lambda value: None if value == element.index else self.__check_index(value))
 
     def __check_index(self, value):
         """validate day_id from DayProfile"""
-- 
2.43.0


From 0bd825b87eea29e9cce615c6478f2b1412c5c780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 113/148] fix: keep scaler and unit in copies of numbers

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 1fdfc0d..111ab82 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -468,6 +468,9 @@ class Digital(ABC):
         """ override SimpleDataType for send scaler_unit . use only for check and send contents """
         return self.__class__(value, self.SCALER_UNIT)
 
+    def copy(self) -> Self:
+        return self._new_instance(self.encoding)
+
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-- 
2.43.0


From 4bbee1f7ce7135e2b8b4c67401dc497a23caf80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 114/148] fix: show the flags above bit 7

---
 src/DLMS_SPODES/cosem_interface_classes/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/events.py b/src/DLMS_SPODES/cosem_interface_classes/events.py
index 45f3498..97dcc29 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/events.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/events.py
@@ -9,7 +9,7 @@ match get_current_language():
 class FlagEvents(dict):
     """ special class for flag events indication """
     def get_report(self, value: int) -> str:
-        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(8)))))+F"({value})"
+        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(value.bit_length())))))+F"({value})"
 
 
 class Events(dict):
-- 
2.43.0


From 2c2524952ba5d94965bfb0f04ca7a6ad509fc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 115/148] fix: clear the previous interface of a channel number

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 3403967..210bd10 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -118,7 +118,7 @@ class ChannelNumberValue(cdt.Unsigned):
 
     @interface.setter
     def interface(self, value: enu.Interface):
-        self.set((int(self) & 0b0001_1111) | (value << 3))
+        self.set((int(self) & 0b0000_0111) | (value << 3))
 
     def get_report(self, with_unit: bool = True) -> str:
         return F"Номер канала связи: {self.channel.name}, Тип интерфейса: {self.interface.name}"
-- 
2.43.0


From 66efa1e3596b42c9586a1e6161bf829a2c3a1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 116/148] fix: report values behind an empty one

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index e659574..0aec4f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -32,7 +32,7 @@ def get_obj_report(
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
                 value = next(value_it, None)
-                if value:
+                if value is not None:
                     if not isinstance(name, str):
                         name = next(name).NAME
                     if isinstance(value, cdt.Array):
-- 
2.43.0


From 135c25d3c49488e2056c2ee0cd00d2ec737bd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 117/148] fix: name objects with unknown groups D and E

---
 src/DLMS_SPODES/relation_to_OBIS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index beb3ab7..9d18d81 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -59,7 +59,7 @@ def get_harmonics_name(classification: int) -> str:
         case 126:                             return rn.ALL_HARMONICS
         case 127:                             return rn.ALL_HARMONICS_TO_NOMINAL_VALUE_RATIO
         case _ if 120 >= classification >= 1: return F"{rn.HARMONIC} {classification}"
-        case _: raise ValueError(F"for get harmonics unknown {classification=}")
+        case _:                               return rn.UNKNOWN
 
 
 def get_processing_names(d: int) -> str:
@@ -124,7 +124,7 @@ def get_processing_names(d: int) -> str:
         case 129: return rn.RU_NEGATIVE_DEVIATION
         case 133: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.BILLING_PERIOD}"
         case 134: return rn.RU_CHANGE_LIMIT_LEVEL
-        case _:  raise ValueError(F'Unknown Processing of measurement values {d}')
+        case _:  return rn.UNKNOWN
 
 
 def get_rate(value: int) -> str:
-- 
2.43.0


From 933753e68249882d46a534b6f4705a1031f4efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:19 +0000
Subject: [PATCH 118/148] fix: name angles without second vector

---
 src/DLMS_SPODES/relation_to_OBIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index 9d18d81..683bb23 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -407,7 +407,7 @@ def get_name(logical_name: cst.LogicalName) -> str:
             return F"{handle_B(b)}{rn.REACTIVE_FACTOR} {get_processing_names(d)}"
         case  1, 0, 147 as c, 133, 0: return F"{get_obj_names(c)} {rn.BILLING_PERIOD}"
         case  1, 0, 148, 36, 0: return F"{rn.OVER_VOLTAGE_COUNTER} {rn.BILLING_PERIOD}"
-        case 1, b, 81, 7, e if e < 78:
+        case 1, b, 81, 7, e if e < 78 and e % 10 < 8:
             angel_values = (rn.U_L1, rn.U_L2, rn.U_L3, rn.ERROR, rn.I_L1, rn.I_L2, rn.I_L3, rn.I_L0)
             to_, from_ = divmod(logical_name.e, 10)
             return F"{F'{rn.ANGLE_FROM} {angel_values[from_]} {rn.TO} {angel_values[to_]}'}{handle_B(b)}"
-- 
2.43.0


From 988eb3dc0d814d1b7ad1722d191921414f98ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 119/148] fix: show the channel of the reference voltage

---
 src/DLMS_SPODES/relation_to_OBIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index 683bb23..7a92a73 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -374,7 +374,7 @@ def get_name(logical_name: cst.LogicalName) -> str:
         case  1, b, 0, 6, 1:    return F"{rn.NOMINAL_CURRENT}{handle_B(b)}"
         case  1, b, 0, 6, 2:    return F"{rn.NOMINAL_FREQUENCY}{handle_B(b)}"
         case  1, b, 0, 6, 3:    return F"{rn.MAXIMUM_CURRENT}{handle_B(b)}"
-        case  1, b, 0, 6, 4:    return rn.REFERENCE_VOLTAGE_FOR_POWER_QUALITY_MEASUREMENT
+        case  1, b, 0, 6, 4:    return F"{rn.REFERENCE_VOLTAGE_FOR_POWER_QUALITY_MEASUREMENT}{handle_B(b)}"
         case  1, b, 0, 6, 5:    return F"{rn.REFERENCED_VOLTAGE_FOR_AUX_POWER_SUPPLY}{handle_B(b)}"
         case  1, b, 0, 8, 4:    return F"{rn.RECORDING_INTERVAL_1_FOR_LOAD_PROFILE}{handle_B(b)}"
         case  1, b, 0, 8, 5:    return F"{rn.RECORDING_INTERVAL_2_FOR_LOAD_PROFILE}{handle_B(b)}"
-- 
2.43.0


From a491d048a1480365c4a711c6534c0b36a37aa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 120/148] fix: refuse images with a block size of 0

---
 src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
index 08765f1..38b793d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
@@ -96,6 +96,8 @@ class ImageTransfer(ic.COSEMInterfaceClasses):
     def set_image_for_update(self, value: bytes, identifier: bytearray):
         """ set to image_for_update from bytes and set to first block if identifier is new """
         block_size: int = self.image_block_size.decode()
+        if block_size < 1:
+            raise ValueError(F"can't cut image in blocks with size: {block_size}")
         self.clear_image()
         while len(value) != 0:
             self.__blocks_for_update.append(bytearray(value[:block_size]))
-- 
2.43.0


From 810a565e0b5bd57f88e46a7f15a424f9237446b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 121/148] fix: default of the information field length

---
 .../cosem_interface_classes/iec_hdlc_setup/ver1.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index e16cf1c..a6683f5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -10,8 +10,8 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
     A_ELEMENTS = (ic.ICAElement("comm_speed", CommSpeed, 0, 9, 5),
                   ic.ICAElement("windows_size_transmit", cdt.Unsigned, 1, 7, 1),
                   ic.ICAElement("windows_size_receive", cdt.Unsigned, 1, 7, 1),
-                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 128, 32, 2030),
-                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 128, 32, 2030),
+                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 32, 2030, 128),
+                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 32, 2030, 128),
                   ic.ICAElement("inter_octet_time_out", cdt.LongUnsigned, 20, 6000, 25),
                   ic.ICAElement("inactivity_time_out", cdt.LongUnsigned, 0, default=120),
                   ic.ICAElement("device_address", cdt.LongUnsigned, 0x0001, 0x3ffd, default=0x10))  # TODO: not according by BlueBook: need default, minimum is other
-- 
2.43.0


From 60179bfc55ef4ba4cce57602544d9fd897c5cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 122/148] fix: apply negotiated parameters only when all are
 valid

---
 .../cosem_interface_classes/iec_hdlc_setup/ver1.py  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index a6683f5..eca4174 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -81,16 +81,21 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
             info = info.removeprefix(b'\x81\x80')
             length, info = info[0], info[1:]
             if length == len(info):
+                new: list[tuple[int, cdt.CommonDataType]] = list()
                 while len(info) != 0:
                     tag, value_length, info = info[:1], info[1], info[2:]
                     value, info = info[:value_length], info[value_length:]
+                    if len(value) != value_length:
+                        raise ValueError(F'Invalid UA response. Got {len(value)} octets of parameter {tag.hex()}, expected {value_length}')
                     match tag:
-                        case b'\x05': self.set_attr(5, cdt.LongUnsigned(int.from_bytes(value, 'big')))
+                        case b'\x05': new.append((5, cdt.LongUnsigned(int.from_bytes(value, 'big'))))
                                       # self.max_info_field_length_transmit.contents = (bytes(2)+value)[-2:]
-                        case b'\x06': self.set_attr(6, cdt.LongUnsigned(int.from_bytes(value, 'big')))
-                        case b'\x07': self.set_attr(3, cdt.Unsigned(int.from_bytes(value, 'big')))
-                        case b'\x08': self.set_attr(4, cdt.Unsigned(int.from_bytes(value, 'big')))
+                        case b'\x06': new.append((6, cdt.LongUnsigned(int.from_bytes(value, 'big'))))
+                        case b'\x07': new.append((3, cdt.Unsigned(int.from_bytes(value, 'big'))))
+                        case b'\x08': new.append((4, cdt.Unsigned(int.from_bytes(value, 'big'))))
                         case _:       raise ValueError(F'Invalid UA response. Got {tag.hex(" ")} from supported 05, 06, 07, 08')
+                for i, value in new:
+                    self.set_attr(i, value)
             else:
                 raise ValueError(F'HDLS negotiation length wrong, must be {length}, got {len(info)}')
         elif len(info) == 0:
-- 
2.43.0


From d33ce273cc6ace38a5b2c80072dddca029bbb4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 123/148] fix: refuse SPODES versions that are not numbers

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 210bd10..3c4572e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -365,7 +365,7 @@ class SPODES3SPODESVersionValue(cdt.OctetString):
     def __init__(self, value="332e30"):
         super(SPODES3SPODESVersionValue, self).__init__(value)
         match AppVersion.from_str(self.contents.decode("utf-8")):
-            case AppVersion(0, 0, 0): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
+            case AppVersion(0, 0): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
             case AppVersion(_, _, None): """valid version"""
             case _: raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
 
-- 
2.43.0


From f7bedc75a57296c881c8c8f7f91c20ffafd3cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 124/148] fix: validate typed floating-point numbers

---
 src/DLMS_SPODES/types/common_data_types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 111ab82..ab5f65c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -648,9 +648,8 @@ class Float(ABC):
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-        if value[-1] in '.-+exp':
-            value += '0'
-        return SimpleDataType(self).validate_from(value, cursor_position)
+        type(self)(F"{value}0" if value[-1:] in '.-+exp' else value)
+        return value, cursor_position
 
     def __str__(self):
         return str(self.decode())
-- 
2.43.0


From f6836b98f516a46650c64f3db0256fd871246fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 125/148] fix: keep the cursor inside the typed octet string

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ab5f65c..1afcbbe 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1640,7 +1640,7 @@ class OctetString(_String, SimpleDataType):
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         try:
             correct = type(self)(value)
-            return str(correct), cursor_position + (len(str(correct))-len(value))
+            return str(correct), max(0, cursor_position + (len(str(correct))-len(value)))
         except ValueError:
             cursor_position: int = len(value)-1 if cursor_position is None else cursor_position
             type(self)(F'{value[:cursor_position]}0{value[cursor_position:]}')  # check possible
-- 
2.43.0


From 3b227898b2cd0b1c2d0396124df9152aa54eb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 126/148] fix: keep all octets of object identifier arcs

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 1afcbbe..7266e7f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1395,7 +1395,7 @@ class AXDR(ABC):
                             values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
-                                tmp = (tmp & 0b0111_1111) << 7
+                                tmp <<= 7
                                 if values_in[0] >= 0b1000_0000:
                                     tmp += values_in.popleft() & 0b0111_1111
                                 else:
-- 
2.43.0


From 4fe7319a375c5f26cb023439b3577cdd24685096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 127/148] fix: refuse incomplete object identifiers

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7266e7f..9421de0 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1404,6 +1404,8 @@ class AXDR(ABC):
                                     i = next(values_index)
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
+                            if None in values:
+                                raise ValueError(F"incomplete object identifier: {xdr.hex()}")
                             self.__dict__['values'] = tuple(values)
                         else:
                             raise ValueError(F"expected {self.TAG} type, got {TAG(encoding[:1])}")
-- 
2.43.0


From 654493e767947d836583b5ef4ac6270c43661f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:23 +0000
Subject: [PATCH 128/148] fix: write the length of object identifiers in octets

---
 src/DLMS_SPODES/types/common_data_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9421de0..18f9764 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1421,6 +1421,13 @@ class AXDR(ABC):
         else:
             return super(AXDR, self).contents
 
+    @property
+    def encoding(self) -> bytes:
+        if self.is_xdr:
+            return self.TAG + encode_length(len(self.contents)) + self.contents
+        else:
+            return super(AXDR, self).encoding
+
 
 class Boolean(SimpleDataType):
     """ boolean """
-- 
2.43.0


From 29dc6be7181e950bbdc0aa85cdc898004b67ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 129/148] fix: give access to the security setup reference

---
 .../cosem_interface_classes/association_ln/ver1.py           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver1.py
index f3f888d..4ca4fbd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver1.py
@@ -110,7 +110,6 @@ class AssociationLN(ver0.AssociationLN):
     object_list: ObjectListType
     application_context_name: ContextNameType
     authentication_mechanism_name: MechanismNameType
-    security_setup_reference: cst.LogicalName
     add_object: ObjectListElement
     remove_object: ObjectListElement
 
@@ -119,3 +118,7 @@ class AssociationLN(ver0.AssociationLN):
         # References a "Security setup" object by its logical name. The referenced object manages security for a given "Association LN" object
         # instance.
         self.set_attr(9, None)
+
+    @property
+    def security_setup_reference(self) -> cst.LogicalName:
+        return self.get_attr(9)
-- 
2.43.0


From d571c4e3cd95fd3ec3426409167a004eb48a798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 130/148] fix: the clock status has daylight saving in its
 highest bit

---
 src/DLMS_SPODES/cosem_interface_classes/clock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/clock.py b/src/DLMS_SPODES/cosem_interface_classes/clock.py
index 1172836..b8da858 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/clock.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/clock.py
@@ -18,7 +18,7 @@ class ClockStatus(cdt.Unsigned):
             ret += ' different clock base'
         if bool(value & 0b1000):
             ret += ' invalid clock status'
-        if bool(value & 0b1000000):
+        if bool(value & 0b10000000):
             ret += ' daylight saving active'
         if ret == '':
             ret = 'empty'
-- 
2.43.0


From 159c820f7bb47d15c5dff63517b169e9c60ead8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 131/148] fix: indexes of a schedule are known from the start
 and to appended entries

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index 332d2fb..e641bc5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -49,12 +49,9 @@ class Entries(cdt.Array):
     TYPE = ScheduleTableEntry
     unique = True
 
-    def __init__(self, value: bytes = None):
-        super(Entries, self).__init__(value)
-        # setting callback for validate schedule_table_entry index
-        for schedule_table_entry in self:
-            schedule_table_entry: ScheduleTableEntry
-            schedule_table_entry.index.set_callback(self.get_indexes)
+    def append_validate(self, element: ScheduleTableEntry):
+        """ setting callback for validate schedule_table_entry index """
+        element.index.set_callback(self.get_indexes)
 
     def get_indexes(self) -> list[int]:
         """ getter for callback Index """
@@ -140,8 +137,8 @@ class Schedule(ic.COSEMInterfaceClasses):
                   ic.ICMElement("delete", DataDelete))
 
     def characteristics_init(self):
-        self.set_attr(2, None)
         self._cbs_attr_post_init.update({2: self.__set_index_cbs})
+        self.set_attr(2, None)
 
     @property
     def entries(self) -> Entries:
-- 
2.43.0


From ceb44d2d9cdb712b3ef358ba49ad726ba2c5d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:47 +0000
Subject: [PATCH 132/148] fix: ranges to enable and disable may name no entry

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index e641bc5..a400053 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -58,16 +58,20 @@ class Entries(cdt.Array):
         return [entries_element.index.decode() for entries_element in self]
 
 
+class RangeIndex(Index, min=1, max=0xffff):
+    """ above 9999: no entry """
+
+
 class DataED(cdt.Structure):
     """ Sets the disabled bit of range A entries to true and then enables the entries of range B.
     * firstIndexA/B < lastIndexA/B: all entries of the range A/B are disabled/enabled
     * firstIndexA/B == lastIndexA/B: one entry is disabled/enabled,
     * firstIndexA/B > lastIndexA/B: nothing disabled/enabled,
     * firstIndexA/B and lastIndexA/B > 9999: no entry is disabled/enabled """
-    firstIndexA: Index
-    lastIndexA: Index
-    firstIndexB: Index
-    lastIndexB: Index
+    firstIndexA: RangeIndex
+    lastIndexA: RangeIndex
+    firstIndexB: RangeIndex
+    lastIndexB: RangeIndex
 
 
 class DataDelete(cdt.Structure):
-- 
2.43.0


From a4ea36971b1a67cca0ed2a0208a8b4931cd11b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:33 +0000
Subject: [PATCH 133/148] fix: inserted elements are validated as appended ones

---
 src/DLMS_SPODES/types/common_data_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 18f9764..c7b43f6 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -305,6 +305,7 @@ class __Array(ABC):
         if isinstance(element, self.TYPE):
             if getattr(self, "unique", False) and element in self.values:
                 raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
+            self.append_validate(element)
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-- 
2.43.0


From 8e44d39139c637a39dd20bc202479705de4870ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:22 +0000
Subject: [PATCH 134/148] fix: conformance bits are distinct and in the order
 of the block

---
 src/DLMS_SPODES/enums.py | 48 ++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/DLMS_SPODES/enums.py b/src/DLMS_SPODES/enums.py
index 45b9018..588a10c 100644
--- a/src/DLMS_SPODES/enums.py
+++ b/src/DLMS_SPODES/enums.py
@@ -226,30 +226,30 @@ class XDLMSAPDU(IntFlag):
 class Conformance(IntFlag):
     """ DLMS UA 1000-1 Ed 14 5.4.5 AssociationLN xDLMS_context_info.conformance"""
     NONE = 0
-    RESERVED_ZERO = 0b1
-    GENERAL_PROTECTION = 0b10
-    GENERAL_BLOCK_TRANSFER = 0b100
-    READ = 0b1000
-    WRITE = 0b1_0000
-    UN_CONFIRMED_WRITE = 0b10_0000
-    RESERVED_SIX = 0b100_0000
-    RESERVED_SEVEN = 0b1000_0000
-    ATTRIBUTE_0_SUPPORTED_WITH_SET = 0b1_0000_0000
-    PRIORITY_MGMT_SUPPORTED = 0b10_0000_0000
-    ATTRIBUTE_0_SUPPORTED_WITH_GET = 0b100_0000_0000
-    BLOCK_TRANSFER_WITH_GET_OR_READ = 0b1000_0000_0000
-    BLOCK_TRANSFER_WITH_SET_OR_WRITE = 0b1_0000_0000_0000
-    BLOCK_TRANSFER_WITH_ACTION = 0b10_0000_0000_0000
-    MULTIPLE_REFERENCES = 0b100_0000_0000_0000
-    INFORMATION_REPORT = 0b1000_0000_0000_0000
-    DATA_NOTIFICATION = 0b1_0000_0000_0000_0000
-    ACCESS = 0b10_0000_0000_0000_0000
-    PARAMETERIZED_ACCESS = 0b100_0000_0000_0000_0000
-    GET = 0b1000_0000_0000_0000_0000
-    SET = 0b1_0000_0000_0000_0000_0000
-    SELECTIVE_ACCESS = 0b10_0000_0000_0000_0000
-    EVENT_NOTIFICATION = 0b100_0000_0000_0000_0000
-    ACTION = 0b1000_0000_0000_0000_0000
+    RESERVED_ZERO = 0b1000_0000_0000_0000_0000_0000
+    GENERAL_PROTECTION = 0b100_0000_0000_0000_0000_0000
+    GENERAL_BLOCK_TRANSFER = 0b10_0000_0000_0000_0000_0000
+    READ = 0b1_0000_0000_0000_0000_0000
+    WRITE = 0b1000_0000_0000_0000_0000
+    UN_CONFIRMED_WRITE = 0b100_0000_0000_0000_0000
+    RESERVED_SIX = 0b10_0000_0000_0000_0000
+    RESERVED_SEVEN = 0b1_0000_0000_0000_0000
+    ATTRIBUTE_0_SUPPORTED_WITH_SET = 0b1000_0000_0000_0000
+    PRIORITY_MGMT_SUPPORTED = 0b100_0000_0000_0000
+    ATTRIBUTE_0_SUPPORTED_WITH_GET = 0b10_0000_0000_0000
+    BLOCK_TRANSFER_WITH_GET_OR_READ = 0b1_0000_0000_0000
+    BLOCK_TRANSFER_WITH_SET_OR_WRITE = 0b1000_0000_0000
+    BLOCK_TRANSFER_WITH_ACTION = 0b100_0000_0000
+    MULTIPLE_REFERENCES = 0b10_0000_0000
+    INFORMATION_REPORT = 0b1_0000_0000
+    DATA_NOTIFICATION = 0b1000_0000
+    ACCESS = 0b100_0000
+    PARAMETERIZED_ACCESS = 0b10_0000
+    GET = 0b1_0000
+    SET = 0b1000
+    SELECTIVE_ACCESS = 0b100
+    EVENT_NOTIFICATION = 0b10
+    ACTION = 0b1
 
     @cached_property
     def content(self) -> bytes:
-- 
2.43.0


From 7a3b08449be1e78c043d9a12f97929e682e89343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:11 +0000
Subject: [PATCH 135/148] fix: short form names are made from structures and
 elements

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c7b43f6..58d3360 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1414,6 +1414,10 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = False
                         super(AXDR, self).__init__(value)
             case None:                                              self.__init__(self.DEFAULT)
+            case Structure():                                       self.__init__(value.encoding)
+            case _:
+                self.__dict__['is_xdr'] = False
+                super(AXDR, self).__init__(value)
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 87a1466a3f846e50ff526ddc557f5104d2f47f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:50 +0000
Subject: [PATCH 136/148] fix: options of a key info element are chosen by its
 type

---
 src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
index 6ddf4b2..fccf49c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
@@ -66,7 +66,7 @@ class ConfirmationParameters(cdt.Structure):
 class KeyInfoElement(choices.StructureMixin, cdt.Structure):
     """Override several methods of cdt.Structure. It limited Structure."""
     key_info_type: enums.KeyInfoType
-    key_info_options: choices.KeyInfoOptions
+    key_info_options: choices.key_info_options
 
 
 class ProtectionOptions(cdt.Structure):
-- 
2.43.0


From 9d86c56bab4577fc5d9bea2e418ec963549895d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 137/148] fix: choices with octet string dates refuse other
 types and have a default octet string

---
 src/DLMS_SPODES/types/useful_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 12ace7f..5823e47 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -403,11 +403,14 @@ class CHOICE(ABC):
                                 raise ValueError(F"got type with tag: {encoding[0]} and length: {encoding[1]}, expected length {tuple(ch.keys())}")
                         case err:                     raise ValueError(F"got {err.__name__}, expected {SequenceElement.__name__} or {dict.__name__}")
                 case int() if force:                  return cdt.get_common_data_type_from(value.to_bytes(1, "big"))()
-                case int() as tag:                    return self.ELEMENTS[tag].TYPE()
+                case int() as tag:
+                    match self.ELEMENTS[tag]:
+                        case dict() as ch:            return tuple(ch.values())[0].TYPE()
+                        case el:                      return el.TYPE()
                 case None:                            return tuple(self.ELEMENTS.values())[0].TYPE()
                 case error:                           raise ValueError(F'Unknown value type {error}')
         except KeyError as e:
-            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.ELEMENTS.values()))}")
+            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.__get_elements()))}")
 
     def __get_elements(self) -> list[SequenceElement]:
         """all elements with nested values"""
-- 
2.43.0


From bdcf8eba92d18d73cb38611a26ac44516e94614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:45 +0000
Subject: [PATCH 138/148] fix: conformance has 24 bits in every form

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index e7ff596..cad5914 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -35,9 +35,9 @@ class Conformance(cdt.BitString):
     default = '011111111111111111111111'  # zero only 1 bit
 
     def __init__(self, value: bytes | bytearray | str | int | cdt.BitString = None):
+        if isinstance(value, cdt.BitString) and len(value) != len(self.ELEMENTS):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value)} bits, expected {len(self.ELEMENTS)}')
         super(Conformance, self).__init__(value)
-        if self.ELEMENTS is not None and len(self) != len(self.ELEMENTS):
-            raise ValueError(F'For {self.__class__.__name__} get {len(self)} bits, expected {len(self.ELEMENTS)}')
 
     def __len__(self):
         return len(self.ELEMENTS)
@@ -52,6 +52,8 @@ class Conformance(cdt.BitString):
             case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
 
     def from_str(self, value: str) -> bytes:
+        if len(value) != len(self):
+            raise ValueError(F'Got {len(value)} bits, expected {len(self)}')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
@@ -60,7 +62,7 @@ class Conformance(cdt.BitString):
         return value
 
     def from_int(self, value: int) -> bytes:
-        if value < 0:
+        if value < 0 or value >> len(self):
             raise ValueError
         res = 0
         start_bit = 2 ** (len(self) - 1)
@@ -70,6 +72,8 @@ class Conformance(cdt.BitString):
         return res.to_bytes(len(self) // 8, byteorder='big')
 
     def from_bytearray(self, value: bytearray) -> bytes:
+        if len(value) * 8 != len(self):
+            raise ValueError(F'Got {len(value)} bytes, expected {len(self) // 8}')
         return bytes(value)
 
     @classmethod
-- 
2.43.0


From dbca02e563f03ba3500039862864ef69a972de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 139/148] fix: a float made from one of the other width is
 converted

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 58d3360..336d041 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -619,7 +619,8 @@ class Float(ABC):
             case str():                                                            self.contents = self.from_str(value)
             case int():                                                            self.contents = self.from_float(float(value))
             case float():                                                          self.contents = self.from_float(value)
-            case Float():                                                          self.contents = value.contents
+            case Float() if len(value) == len(self):                               self.contents = value.contents
+            case Float():                                                          self.contents = self.from_float(value.decode())
             case _:                                                                raise ValueError(F'Error create {self.TAG} with value {value}')
 
     def from_str(self, value: str) -> bytes:
-- 
2.43.0


From 7537f0dd1e205dd3c9d4900e7cc7af52552519cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 140/148] fix: a forced attribute type is applied once

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index e13a88d..3997d84 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -953,6 +953,7 @@ class Collection:
                             except ut.UserfulTypesException as e:
                                 if attr.attrib.get("forced", None):
                                     new_object.set_attr_force(i, cdt.get_common_data_type_from(int(attr.text).to_bytes(1, "big"))())
+                                    obj.remove(attr)
                                 logger.warning(F"set to {new_object} attr: {i} forced value after. {e}.")
                             except exc.NoObject as e:
                                 logger.error(F"Can't fill {new_object} attr: {i}. Skip. {e}.")
-- 
2.43.0


From b4a354951cca47b98a140bad8ad8869aff425a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 141/148] fix: a fixed octet string of the buffer codec has its
 size

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 46107ef..7986bfe 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -137,6 +137,7 @@ class Simple(UT, ABC):
 
     def __init__(self, value: memoryview):
         self.contents = value
+        self.validate()
 
     def validate(self):
         if not (len(self) == -1 or len(self) == len(self.contents)):
@@ -178,6 +179,9 @@ class VarSizeMixin(Simple, ABC):
     def __len__(self) -> int:
         return decide_len(len(self.contents)) + len(self.contents)
 
+    def validate(self):
+        """any length is valid"""
+
     @classmethod
     def get(cls, buf: Buffer) -> Self:
         return cls(buf.read_by_length())
-- 
2.43.0


From cc165b195d9777b4b3a005d397393ac46b4cbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 142/148] fix: a structure is put back when one of its elements
 refuses its new value

---
 src/DLMS_SPODES/types/common_data_types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 336d041..7580d2a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1323,8 +1323,14 @@ class Structure(ComplexDataType):
             raise ValueError(F"for {self.__class__.__name__} got {len(new_values)} elements, expected {len(self.values)}")
         for el, el_value in zip(self.values, new_values):
             el.get_types()(el_value)
-        for el, el_value in zip(self.values, new_values):
-            el.set(el_value)
+        previous = [el.encoding for el in self.values]
+        for i, el in enumerate(self.values):
+            try:
+                el.set(new_values[i])
+            except Exception:
+                for changed, encoding in zip(self.values[:i], previous):
+                    changed.set(encoding)
+                raise
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 145bec7d56fd8074afccd1b68bbe00ac81fadaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:04 +0000
Subject: [PATCH 143/148] fix: a text of bits has no characters but 0 and 1

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7580d2a..286fa70 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -374,6 +374,8 @@ class FlagMixin(ABC):
             case _ as bit_error: raise ValueError(F'Unused bit set: {bin(bit_error)}')
 
     def from_str(self, value: str) -> bytes:
+        if not set(value) <= {'0', '1'}:
+            raise ValueError(F'got {value}, expected bits only')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
@@ -1531,6 +1533,8 @@ class BitString(SimpleDataType):
             case _ as error:                                raise ValueError(F"got {TAG(error)}, expected {self.TAG}")
 
     def from_str(self, value: str) -> bytes:
+        if not set(value) <= {'0', '1'}:
+            raise ValueError(F'got {value}, expected bits only')
         self.__length = len(value)
         value = value + '0' * ((8 - self.__length) % 8)
         return bytes((int(value[count:(count + 8)], base=2) for count in range(0, self.__length, 8)))
-- 
2.43.0


From 6edd99459dc52a8743faee2ac5c5f2422ee5ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:46 +0000
Subject: [PATCH 144/148] fix: a text of the conformance block has no
 characters but 0 and 1

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index cad5914..50ce54a 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -54,6 +54,8 @@ class Conformance(cdt.BitString):
     def from_str(self, value: str) -> bytes:
         if len(value) != len(self):
             raise ValueError(F'Got {len(value)} bits, expected {len(self)}')
+        if not set(value) <= {'0', '1'}:
+            raise ValueError(F'got {value}, expected bits only')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
-- 
2.43.0


From 6dc190efd7303c3ef156b9904c23e39820dc950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:05 +0000
Subject: [PATCH 145/148] fix: a placeholder is looked for only before the
 cursor

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 286fa70..a78fa2f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -721,7 +721,7 @@ class __DateTime(ABC):
     def validate_from(self, value: str, cursor_position: int) -> tuple[str, int]:
         while len(value) > cursor_position and value[cursor_position] == '_':
             value = value[:cursor_position] + value[cursor_position+1:]
-        while value[cursor_position-2] == '_':
+        while cursor_position >= 2 and value[cursor_position-2] == '_':
             value = value[:cursor_position-2] + value[cursor_position-1:]
             cursor_position -= 1
         try:
-- 
2.43.0


From 4b0aa628b3ec473c41dae81516923cc858f6e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:07 +0000
Subject: [PATCH 146/148] fix: integers of the buffer codec are equal when
 their numbers are

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 7986bfe..5b408a0 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -283,7 +283,9 @@ class INTEGER(Simple, ABC):
         return int(self)
 
     def __eq__(self, other: Self):
-        return self.contents == other.contents
+        match other:
+            case INTEGER(): return int(self) == int(other)
+            case _:         return NotImplemented
 
 
 class Integer8(INTEGER, Simple):
-- 
2.43.0


From 63e2ffff92f13b9691ac7c513fa5fe069d63329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:20 +0000
Subject: [PATCH 147/148] fix: service integers are equal when their numbers
 are

---
 src/DLMS_SPODES/types/useful_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 5823e47..6bf976c 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -665,7 +665,9 @@ class INTEGER(ABC):
         return self.value
 
     def __eq__(self, other: Self):
-        return self.contents == other.contents
+        match other:
+            case INTEGER(): return self.value == other.value
+            case _:         return self.contents == other.contents
 
 
 class Integer8(INTEGER, UT):
-- 
2.43.0


From 3891fcfacb50a738b7ce6b8eb73dc544848c0b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:17 +0000
Subject: [PATCH 148/148] fix: contents of an enumeration are one octet, texts
 of flags no longer than the flags

---
 src/DLMS_SPODES/types/common_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a78fa2f..5f9d800 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -376,6 +376,8 @@ class FlagMixin(ABC):
     def from_str(self, value: str) -> bytes:
         if not set(value) <= {'0', '1'}:
             raise ValueError(F'got {value}, expected bits only')
+        if len(value) > len(self):
+            raise ValueError(F'got {len(value)} bits, expected at most {len(self)}')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
@@ -1872,7 +1874,7 @@ class Enum(SimpleDataType, ABC):
                     case self.TAG if len(encoding) >= 2:                  self.contents = encoding[1:2]
                     case self.TAG:                                        raise ValueError(F'Length of contents for {self.__class__.__name__} must be at least 1, but got {len(encoding[1:])}')
                     case _ as wrong_tag:                                  call_wrong_tag_in_value(wrong_tag, self.TAG)
-            case bytearray():                                             self.contents = bytes(value)
+            case bytearray() if len(value) == 1:                          self.contents = bytes(value)
             case None:                                                    self.contents = self.from_none()
             case str():                                                   self.contents = self.from_str(value)
             case int():                                                   self.contents = self.from_int(value)
-- 
2.43.0

