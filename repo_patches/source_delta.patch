From 687552fb10ff8c18b04a06645ee47e9fbf5006f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 001/122] fix: association_ln.ver0 imports its sibling module
 <method> as a top-level module, so the package can't be imported

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index e65cd29..9b4f304 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -5,7 +5,7 @@ from ...types import choices, cosemObjectInstanceId
 from ...types.implementations import arrays, enums, bitstrings, long_unsigneds, structs
 from ... import pdu_enums as pdu
 from . import mechanism_id, authentication_mechanism_name
-import method
+from . import method
 
 
 class AccessMode(cdt.Enum, elements=(0, 1, 2, 3)):
-- 
2.43.0


From 2e606f381ced59a3ffc3056b432f295a56dc417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 002/122] fix: restore
 useful_types.CosemAttributeDescriptorWithSelection, required by
 association_ln, profile_generic and collection

---
 src/DLMS_SPODES/types/useful_types.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index acd79bf..1287f47 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -774,21 +774,6 @@ class SelectiveAccessDescriptor(Sequence, ABC):
             self.access_parameters.set(value)
 
 
-# class CosemAttributeDescriptorWithSelection(Sequence):
-#     cosem_attribute_descriptor: CosemAttributeDescriptor
-#     access_selection: SelectiveAccessDescriptor
-#     ELEMENTS: tuple[CosemAttributeDescriptor, SequenceElement]
-#
-#     def __init__(self, value: bytes | tuple | list = None):
-#         super(CosemAttributeDescriptorWithSelection, self).__init__(value)
-#         self.cosem_attribute_descriptor.access_selection_parameters.set_contents_from(1)
-#
-#     @property
-#     @abstractmethod
-#     def ELEMENTS(self) -> tuple[SequenceElement, SequenceElement]:
-#         """ return elements. Need initiate in subclass """
-
-
 ####
 @dataclass
 class ServiceClass:
@@ -929,6 +914,13 @@ class CosemAttributeDescriptor(Sequence):
     attribute_id: CosemObjectAttributeId
 
 
+@dataclass
+class CosemAttributeDescriptorWithSelection(Sequence):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
+    cosem_attribute_descriptor: CosemAttributeDescriptor
+    access_selection: SelectiveAccessDescriptor
+
+
 @dataclass
 class CosemMethodDescriptor(Sequence):
     class_id: CosemClassId
-- 
2.43.0


From 655c47a6c0da4e2106360b64bbffdf9b1e34a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 003/122] fix: truncated or indefinite length octets are
 rejected instead of being decoded as a shorter length

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6b003b4..75f0688 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,6 +67,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if content_start == 1 or len(input_pdu) < content_start:
+            raise ValueError(F"got wrong length octets: {input_pdu[:content_start].hex()}")
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From 81d62c9604c4b4ef36f2de5d0d853b5d6a5d0d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 004/122] fix: clear() of Boolean, Bcd, Float and date/time
 values raised ValueError, contents is protected from assignment

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 75f0688..cb8cd14 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -652,7 +652,7 @@ class Float(ABC):
         return str(self.decode())
 
     def clear(self):
-        self.contents = bytes(len(self))
+        self.__dict__['contents'] = bytes(len(self))
 
 
 class LIST(ABC):
@@ -733,7 +733,7 @@ class __DateTime(ABC):
         """"""
 
     def clear(self):
-        self.contents = self.DEFAULT
+        self.__dict__['contents'] = self.DEFAULT
 
 
 class __Date(ABC):
@@ -1453,7 +1453,7 @@ class Boolean(SimpleDataType):
         return False if self.contents == b'\x00' else True
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     def __int__(self):
         return 0 if self.contents == b'\x00' else 1
@@ -1720,7 +1720,7 @@ class Bcd(SimpleDataType):
         return self.TAG + self.contents
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     @property
     def contents_length(self) -> int: return 1
-- 
2.43.0


From 7451eab3c2f5b3c2d73b55efbd71b85f6e0e5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 005/122] fix: BitString from bytearray and default Bcd got no
 contents

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index cb8cd14..612b075 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1472,7 +1472,7 @@ class BitString(SimpleDataType):
                 self.contents = new_instance.contents
                 self.__length = len(new_instance)
             case bytes():                               self.contents = self.from_bytes(value)
-            case bytearray():                           self.from_bytearray(value)
+            case bytearray():                           self.contents = self.from_bytearray(value)
             case str():                                 self.contents = self.from_str(value)
             case int():                                 self.contents = self.from_int(value)
             case list():                                self.contents = self.from_list(value)
@@ -1698,7 +1698,7 @@ class Bcd(SimpleDataType):
 
     def __init__(self, value: bytes | bytearray | str | int | Self = None):
         match value:  # TODO: replace priority case
-            case None: bytes(self.contents_length)
+            case None:                                                       self.contents = bytes(self.contents_length)
             case bytes():                                                    self.contents = self.from_bytes(value)
             case bytearray():                                                self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
-- 
2.43.0


From abe0645a34409094d03a4343bb41ae1492bbed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 006/122] fix: DateTime.set_clock_status raised ValueError and
 addressed a 13th octet

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 612b075..fbec71a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2062,7 +2062,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def set_clock_status(self, value: str | int):
         """ now only set value """
-        self.contents = self.contents[:12] + int(value).to_bytes(1, 'big')
+        self.__dict__['contents'] = self.contents[:11] + int(value).to_bytes(1, 'big')
 
     def __str__(self):
         match unpack('>h', self.contents[9:11])[0]:
-- 
2.43.0


From bdd4ab4d1d0ab5d0a6513415af1e00e818e3943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 007/122] fix: Float32/Float64 encode and decode follow IEEE
 60559 (exponent bias, zero, subnormals, infinity, NaN)

---
 src/DLMS_SPODES/types/common_data_types.py | 23 ++--------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index fbec71a..8d9b462 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -617,30 +617,11 @@ class Float(ABC):
         """ Input float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7 """
         if 'inf' in str(value):
             raise OverflowError(F'Float overflow error')
-        hex_string = value.hex()
-        sign, mantissa_and_exponent = hex_string.split('0x')
-        sign = 1 << (len(self) * 8 - 1) if sign else 0
-        mantissa, exponent = mantissa_and_exponent.split('p')
-        integer, fraction = mantissa.split('.')
-        integer = int(integer, base=16)
-        exponent = (int(exponent) + 2 ** (len(self) - 1) - 1)
-        if exponent >= 2 ** self.exponent_wide:
-            raise OverflowError(F'Exponent overflow error')
-        exponent <<= self.fraction_wide if integer else 0
-        fraction_quartet_amount = ceil(self.fraction_wide / 4)
-        offset = fraction_quartet_amount*4 - self.fraction_wide
-        fraction = int(fraction[:fraction_quartet_amount], base=16) >> offset
-        return (sign + exponent + fraction).to_bytes(len(self), 'big')
+        return pack('>f' if len(self) == 4 else '>d', value)
 
     def decode(self) -> float:
         """  return the build in float type IEEE 60559"""
-        sign = self.contents[0] >> 7
-        exponent = (int.from_bytes(self.contents[:2], 'big') & 0x7fff) >> (15 - self.exponent_wide)
-        fraction = int.from_bytes(self.contents[1:], 'big') & (1 << self.fraction_wide)-1
-        ret = 2 ** (exponent - 2**(self.exponent_wide-1)+1) * (1 + fraction/(1 << self.fraction_wide))
-        if sign:
-            ret *= -1
-        return ret
+        return unpack('>f' if len(self) == 4 else '>d', self.contents)[0]
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-- 
2.43.0


From c376e8daa86b04722b05ef56dd432d1da89ad9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 008/122] fix: Array.set lost the old elements when the new
 value was rejected

---
 src/DLMS_SPODES/types/common_data_types.py | 24 ++++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8d9b462..3de58f8 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1123,16 +1123,22 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
+        old_values, old_type = self.values.copy(), self.TYPE
         self.clear()
-        if hasattr(self, 'cb_preset'):
-            self.cb_preset(value)
-        new_array = Array(value, type_=self.TYPE)
-        if self.TYPE is None and len(new_array) != 0:
-            self.set_type(new_array[0].__class__)
-        else:
-            """TYPE already initiated"""
-        for el in new_array:
-            self.append(self.TYPE(el))
+        try:
+            if hasattr(self, 'cb_preset'):
+                self.cb_preset(value)
+            new_array = Array(value, type_=self.TYPE)
+            if self.TYPE is None and len(new_array) != 0:
+                self.set_type(new_array[0].__class__)
+            else:
+                """TYPE already initiated"""
+            for el in new_array:
+                self.append(self.TYPE(el))
+        except Exception:
+            self.__dict__['TYPE'] = old_type
+            self.values[:] = old_values
+            raise
         if hasattr(self, 'cb_post_set'):
             self.cb_post_set()
 
-- 
2.43.0


From 2566a54bcda1a93e4c1760f5cbde8af33520ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 009/122] fix: integers lost precision: strings above 2**53
 went through float, scaled values were truncated, scaled values were not
 hashable

---
 src/DLMS_SPODES/types/common_data_types.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3de58f8..50680aa 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -458,12 +458,16 @@ class Digital(ABC):
                 case ScalUnitType(): value *= 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler())
                 case None:           """ no scaler """
                 case _ as error:     raise ValueError(F'Unknown scaler_unit: {error}')
-            return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
+            return (int(value) if self.SCALER_UNIT is None else round(value)).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
         except OverflowError:
             raise ValueError(F'value {value} out of range')
 
     def from_str(self, value: str) -> bytes:
-        return self.from_int(float(value))
+        try:
+            number = int(value)
+        except ValueError:
+            number = float(value)
+        return self.from_int(number)
 
     def clear(self):
         if self.DEFAULT:
@@ -560,7 +564,7 @@ class Digital(ABC):
         return value, cursor_position
 
     def __hash__(self):
-        return self.decode()
+        return hash(self.decode())
 
 
 class Float(ABC):
-- 
2.43.0


From 471088d181f4d168133b733b2018bf552603e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 010/122] fix: DateTime deviation is a signed long: negative
 deviations were unsupported and time_zone rejected every legal deviation

---
 src/DLMS_SPODES/types/common_data_types.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 50680aa..3f4f8e0 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2018,7 +2018,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             match dev:
                 case '':  return b'\x80\x00'
                 case '-': return b'\x00\x00'
-                case _ if dev.isdigit() and -720 <= int(dev) <= 720:   return pack('>H', int(dev))
+                case _ if dev.removeprefix('-').isdigit() and -720 <= int(dev) <= 720:   return pack('>h', int(dev))
                 case _:           raise ValueError
 
         match value.split(sep=' ', maxsplit=2):
@@ -2031,9 +2031,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def from_datetime(self, value: datetime.datetime) -> bytes:
         """ convert from build to DLMS datetime, weekday not set for uniquely datetime """
         match value.utcoffset():
-            case None: deviation = 0x8000
-            case _:    deviation = value.utcoffset().seconds // 60
-        return pack('>HBBBBBBBH',
+            case None: deviation = -0x8000
+            case _:    deviation = int(value.utcoffset().total_seconds() // 60)
+        return pack('>HBBBBBBBh',
                     value.year,
                     value.month,
                     value.day,
@@ -2067,7 +2067,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def decode(self) -> datetime.datetime:
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        deviation = deviation_highbyte*256 + deviation_lowbyte
+        deviation = int.from_bytes((deviation_highbyte, deviation_lowbyte), 'big', signed=True)
         return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
@@ -2075,15 +2075,15 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
                                  minute=minute if minute != 0xff else 0,
                                  second=second if second != 0xff else 0,
                                  microsecond=hundredths*10000 if hundredths != 0xff else 0,
-                                 tzinfo=datetime.timezone.utc if deviation == 0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
+                                 tzinfo=datetime.timezone.utc if deviation == -0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
 
     @property
     def time_zone(self) -> datetime.timezone | None:
         """ Return timezone from deviation """
-        deviation = self.contents[9]*256 + self.contents[10]
-        if deviation == 0x8000:
+        deviation = int.from_bytes(self.contents[9:11], 'big', signed=True)
+        if deviation == -0x8000:
             return None
-        elif -720 <= deviation >= 720:
+        elif -720 <= deviation <= 720:
             return datetime.timezone(datetime.timedelta(minutes=deviation))
         else:
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
-- 
2.43.0


From c6f2e3f5200becfefa19bc6aa36399f42c0a0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 011/122] fix: date check rejected a weekday with unspecified
 day of month, time check accepted hundredths above 99

---
 src/DLMS_SPODES/types/common_data_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3f4f8e0..6659b79 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -806,7 +806,7 @@ class __Date(ABC):
             value[4:5].replace(b'\xff', b'\x01')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
-                value[2:3] not in b'\xfd\xfe\xff' and value[2:3] not in b'\xfd\xfe\xff':
+                value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
 
     @property
@@ -966,7 +966,8 @@ class __Time(ABC):
             case _ as wrong_value:                    raise ValueError(F"got hundredths={wrong_value} from {self.TAG} contents, must be: 0..99, ff")
 
     def check_time(self):
-        datetime.time(*tuple(self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')))
+        hour, minute, second, hundredths = self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')
+        datetime.time(hour, minute, second, hundredths*10_000)
 
     @property
     def strftime(self) -> str:
-- 
2.43.0


From 1aee993aeeb7c3fe5a7ea9c3c44f11d191c0d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 012/122] fix: DateTime.get_left_nearest_date(time) failed in
 short months, lost the pattern's month and day on the way back and crashed
 without a match

---
 src/DLMS_SPODES/types/common_data_types.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6659b79..4649039 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2093,34 +2093,33 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ search and return date(datetime format) in left from point """
         l_point: datetime.datetime = self.decode()
         """ time in left from point """
-        months = range(point.month, 0, -1) if self.month is None else (self.month,)
-        """ months sequence from 12 to 1 with start from current month or self month """
-        days = range(point.day, 0, -1) if self.day is None else (self.day,)
-        """ days sequence from 31 to 1 with start from current day or self day """
+        months = range(12, 0, -1) if self.month is None else (self.month,)
+        """ months sequence from 12 to 1 or self month """
+        days = range(31, 0, -1) if self.day is None else (self.day,)
+        """ days sequence from 31 to 1 or self day """
         for year in range(point.year, datetime.MINYEAR, -1) if self.year is None else (self.year, ):
-            l_point = l_point.replace(year=year)
             for month in months:
-                l_point = l_point.replace(month=month)
                 for day in days:
-                    l_point = l_point.replace(day=day)
+                    try:
+                        l_point = l_point.replace(year=year, month=month, day=day)
+                    except ValueError:  # the month is shorter
+                        continue
                     if l_point > point:
                         continue
                     elif self.weekday is not None and self.weekday != (l_point.weekday() + 1):
                         continue
                     else:
                         return l_point
-                days = range(31, 0, -1) if self.day is None else point.day,
-            months = range(12, 0, -1) if self.month is None else point.month,
         return None
 
     def get_left_nearest_datetime(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return datetime in left from point """
         l_point: datetime.datetime = self.get_left_nearest_date(point)
         """ time in left from point """
-        is_this_day: bool = l_point.date() == point.date()
-        """ flag of points equaling """
         if l_point is None:
             return None
+        is_this_day: bool = l_point.date() == point.date()
+        """ flag of points equaling """
         for hour in range(point.hour if is_this_day else 23, -1, -1) if self.hour is None else (self.hour,):
             l_point = l_point.replace(hour=hour)
             for minute in range(point.minute if is_this_day and l_point.hour == point.hour else 59, -1, -1) if self.minute is None else (self.minute,):
-- 
2.43.0


From 5ece7f12e221a833212b053358154453cf862b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 013/122] fix: activity calendar: season without occurrence
 crashed the search, action at 00:00 was never found, sunday was not validated

---
 .../cosem_interface_classes/activity_calendar.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index a4aea9a..6bffff5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -200,7 +200,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         for season in self.season_profile_active:
             season: Season
             left_point = season.season_start.get_left_nearest_datetime(server_time)
-            if active_season[1] < left_point:
+            if left_point is not None and active_season[1] < left_point:
                 active_season = season, left_point
         if active_season[0] is None:
             raise AttributeError('Season Not found in Activity calendar object')
@@ -237,11 +237,11 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         """ current server day action by current time """
         server_time = self.collection.current_time
         day = self.get_current_day(server_time)
-        active: tuple[DayProfileAction | None, datetime.time] = None, datetime.time(hour=0, minute=0, second=0)
+        active: tuple[DayProfileAction | None, datetime.time | None] = None, None
         for day_profile_action in day.day_schedule:
             day_profile_action: DayProfileAction
             left_point = day_profile_action.start_time.get_left_nearest_time(server_time.time())
-            if left_point is not None and active[1] < left_point:
+            if left_point is not None and (active[1] is None or active[1] < left_point):
                 active = day_profile_action, left_point
         if active[0] is None:
             raise AttributeError('Action Not found in Activity calendar object')
@@ -293,7 +293,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
                     weeks.append(week_profile.week_profile_name)
                 else:
                     duplicates.add(week_profile.week_profile_name)
-                for i in range(1, 7):
+                for i in range(1, 8):
                     if week_profile[i] not in days:
                         raise ic.ObjectValidationError(
                             ln=self.logical_name,
-- 
2.43.0


From 1deef9fd32d5568fa573a04ade2cb411e4f46564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 014/122] fix: useful_types: octet strings, integers and
 sequences are decoded from contents, a raw value isn't parsed as
 length-prefixed

---
 src/DLMS_SPODES/types/useful_types.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 1287f47..31edd80 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -71,7 +71,7 @@ class UT(ABC):
 
 
 def get_instance_and_context(meta: Type[UT], value: bytes) -> tuple[UT, bytes]:
-    instance = meta(value)
+    instance = meta.from_contents(value)
     return instance, value[len(instance.contents):]
 
 
@@ -85,8 +85,8 @@ class Sequence(UT, ABC):
     @property
     def contents(self):
         data = bytearray()
-        for it in astuple(self, tuple_factory=iter):
-            data.extend(it.contents)
+        for f in fields(self):
+            data.extend(getattr(self, f.name).contents)
         return bytes(data)
 
     @classmethod
@@ -132,7 +132,7 @@ class ConstSizeMixin(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
-        return cls(value[:cls.SIZE()])
+        return cls(bytes(value[:cls.SIZE()]))
 
     @classmethod
     @abstractmethod
@@ -145,11 +145,7 @@ class OctetString(UT):
     value: bytes
 
     def __init__(self, value: bytes):
-        length, pdu = get_length_and_pdu(value)
-        if length <= len(pdu):
-            self.value = pdu[:length]
-        else:
-            raise ValueError(F"for {self.__class__.__name__} got {length=}, but content length only: {len(pdu)}")
+        self.value = value
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
@@ -631,7 +627,9 @@ class INTEGER(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes):
-        return cls(int.from_bytes(value[0:1], "big", signed=cls.SIGNED))
+        if cls.LENGTH > len(value):
+            raise ValueError(F"for {cls.__name__} got content length={len(value)}, expected at least {cls.LENGTH}")
+        return cls(int.from_bytes(value[:cls.LENGTH], "big", signed=cls.SIGNED))
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 11d8b94d64df3a010547c3db3e92e90df87311bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 015/122] fix: useful_types: Data kept no received tag (integer
 became bcd, enum unsigned), OctetString6 size, BOOLEAN.from_str

---
 src/DLMS_SPODES/types/useful_types.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 31edd80..7913b67 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -203,7 +203,7 @@ class OctetString5(ConstSizeMixin, OctetString):
 class OctetString6(ConstSizeMixin, OctetString):
     @classmethod
     def SIZE(cls) -> int:
-        return 5
+        return 6
 
 
 class OctetString8(ConstSizeMixin, OctetString):
@@ -315,6 +315,7 @@ class Choice(UT):
     """CHOICE"""
     value: UT
     ELEMENTS: tuple[ChoiceElement, ...]
+    _element: ChoiceElement | None = None
 
     def __init__(self, value: UT):
         self.value = value
@@ -325,16 +326,23 @@ class Choice(UT):
         if len(value) == 0:
             raise ValueError(F"for {cls.__name__} got contents length = 0, expected 1")  # todo: a lot of copypast this expression
         el = cls._get_element_by_tag(value[0])
-        return cls(el.type.from_contents(value[1:]))
+        new = cls(el.type.from_contents(value[1:]))
+        new._element = el
+        return new
+
+    @property
+    def element(self) -> ChoiceElement:
+        """chosen alternative: received one or first according with type of value"""
+        return self._element or self._get_element_by_type(self.value.__class__)
 
     @property
     def contents(self) -> bytes:
         return pack(F"B{len(self.value.contents)}s",
-                    self._get_element_by_type(self.value.__class__).tag,
+                    self.element.tag,
                     self.value.contents)
 
     def __str__(self):
-        el = self._get_element_by_type(self.value.__class__)
+        el = self.element
         return F'{self.__class__.__name__}: {el.name} [{el.tag}] {self.value}'
 
     @classmethod
@@ -481,9 +489,9 @@ class BOOLEAN(UT):
     @classmethod
     def from_str(cls, value: str):
         match value:
-            case "0", "False":
+            case "0" | "False":
                 return FALSE
-            case "1", "True":
+            case "1" | "True":
                 return TRUE
             case _:
                 raise ValueError(F"for {cls.__name__}.from_str got unknown {value=}")
@@ -938,8 +946,8 @@ class Data(Choice):
         ChoiceElement(name="octet-string", tag=9, type=OctetString),
         ChoiceElement(name="visible-string",        tag=10, type=VisibleString),
         ChoiceElement(name="utf8-string",           tag=12, type=UTF8String),
-        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
         ChoiceElement(name="integer",               tag=15, type=Integer8),
+        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
         ChoiceElement(name="long",                  tag=16, type=Integer16),
         ChoiceElement(name="unsigned",              tag=17, type=Unsigned8),
         ChoiceElement(name="long-unsigned",         tag=18, type=Unsigned16),
-- 
2.43.0


From b6a58fee8ff2cfd20efb1db8e3625cb7b2dff9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 016/122] fix: useful_types: truncated or indefinite length
 octets are rejected too

---
 src/DLMS_SPODES/types/useful_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 7913b67..16bd06f 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -41,6 +41,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if content_start == 1 or len(input_pdu) < content_start:
+            raise ValueError(F"got wrong length octets: {input_pdu[:content_start].hex()}")
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From 160aa37631ff5aad580c074a26eddff48d39e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 017/122] fix: selective access of <buffer> and <object_list>
 was shadowed by the PDU type of the same name, so profiles and associations
 couldn't be initiated

---
 .../association_ln/ver0.py                    |  4 +--
 .../implementations/profile_generic.py        |  2 +-
 .../profile_generic/ver1.py                   |  8 ++---
 src/DLMS_SPODES/types/useful_types.py         | 33 +++++--------------
 4 files changed, 15 insertions(+), 32 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 9b4f304..9d1f6a3 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -248,7 +248,7 @@ class Data(ut.Data):
                 4: ut.SequenceElement('Full object information', ObjectId)}
 
 
-class SelectiveAccessDescriptor(ut.SelectiveAccessDescriptor):
+class SelectiveAccessDescriptor(ut.SelectiveAccess):
     """ Selective access specification always starts with an access selector, followed by an access-specific access parameter list.
     Specified IS/IEC 62056-53 : 2006, 7.4.1.6 Selective access """
     access_selector: AccessSelector
@@ -410,7 +410,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
         """ with selection for object_list. TODO: Copypast ProfileGeneric"""
         descriptor: ut.CosemAttributeDescriptor = super(AssociationLN, self).get_attr_descriptor(value)
         if value == 2 and with_selection:
-            return CosemAttributeDescriptorWithSelection((descriptor, self.object_list.selective_access))
+            return CosemAttributeDescriptorWithSelection(descriptor, self.object_list.selective_access)
         else:
             return descriptor
 
diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index b0e657e..ea88372 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -61,7 +61,7 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
         # rename CaptureObjectDefinition's and adding object if it absense in collection
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             # self.collection.raise_before(obj, self)
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 233df99..73804bd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -139,7 +139,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if value == BUFFER and with_selection:
             if self.attr_descriptor_with_selection is None:
                 self.__create_selective_access_descriptor()
-            return self.attr_descriptor_with_selection((descriptor.contents, self.buffer.selective_access.contents))
+            return self.attr_descriptor_with_selection(descriptor, self.buffer.selective_access)
         else:
             return descriptor
 
@@ -152,12 +152,12 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
             raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             el_value.set_name(self.collection.get_name_and_type(el_value)[0][-1])
         match self.buffer.selective_access:
-            case ut.SelectiveAccessDescriptor() as desc:
+            case ut.SelectiveAccess() as desc:
                 match int(desc.access_selector):
                     # case 0:                                                 self.buffer_capture_objects = self.capture_objects
                     case 1 if len(desc.access_parameters.selected_values) == 0: self.buffer_capture_objects = self.capture_objects
@@ -219,7 +219,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
             ELEMENTS = {1: ut.SequenceElement('range_descriptor', RangeDescriptor),
                         2: ut.SequenceElement('entry_descriptor', EntryDescriptor)}
 
-        class SelectiveAccessDescriptor(ut.SelectiveAccessDescriptor):
+        class SelectiveAccessDescriptor(ut.SelectiveAccess):
             access_selector: AccessSelector
             access_parameters: Data
             ELEMENTS = (ut.SequenceElement('access_selector', AccessSelector),
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 16bd06f..2887a24 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -739,45 +739,28 @@ class Data(CHOICE, ABC):
     }
 
 
-class SelectiveAccessDescriptor(Sequence, ABC):
+class SelectiveAccess(ABC):
     """ Selective access specification always starts with an access selector, followed by an access-specific access parameter list.
     Specified IS/IEC 62056-53 : 2006, 7.4.1.6 Selective access """
     access_selector: Unsigned8
     access_parameters: cdt.CommonDataType
     ELEMENTS: tuple[SequenceElement, SequenceElement]
 
-    def __init__(self, value: tuple | bytes | None = None):
-        super(SelectiveAccessDescriptor, self).__init__(value)
-        self.access_selector.cb_post_set = self.__validate_selector
-
-    @property
-    @abstractmethod
-    def ELEMENTS(self) -> tuple[SequenceElement, SequenceElement]:
-        """ return elements """
-
-    def from_default(self):
-        self.values[0] = self.ELEMENTS[0].TYPE()
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE()
-
-    def from_bytes(self, value: bytes | bytearray):
-        self.values[0], value = get_instance_and_context(self.ELEMENTS[0].TYPE, value)
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE(value)
+    def __init__(self):
+        self.access_selector = self.ELEMENTS[0].TYPE()
+        self.access_parameters = self.__get_default_parameters()
 
-    def from_tuple(self, value: tuple | list):
-        self.values[0] = self.ELEMENTS[0].TYPE(value[0])
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE(value[1])
+    def __get_default_parameters(self) -> cdt.CommonDataType:
+        return self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE()
 
     @property
     def contents(self) -> bytes:
         return self.access_selector.contents+self.access_parameters.encoding
 
-    def __validate_selector(self):
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE()
-        print('change sel')
-
     def set_selector(self, index: int, value=None):
         """ set selector value from int type """
-        self.access_selector.set_contents_from(index)
+        self.access_selector = self.ELEMENTS[0].TYPE(index)
+        self.access_parameters = self.__get_default_parameters()
         if value:
             self.access_parameters.set(value)
 
-- 
2.43.0


From a159490459cd7e892511713303db6742cad99c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 018/122] fix: get_meth_descriptor raised for every object

---
 .../cosem_interface_classes/cosem_interface_class.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 9db8c49..cc696c8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -363,9 +363,10 @@ class COSEMInterfaceClasses(ABC):
         """ TODO """
         match value:
             case int() as index:
-                return ut.CosemMethodDescriptor((CosemClassId(self.CLASS_ID.contents),
-                                                 cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
-                                                 ut.CosemObjectMethodId(index)))
+                return ut.CosemMethodDescriptor(
+                    self.CLASS_ID,
+                    cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
+                    ut.CosemObjectMethodId(index))
 
     def __hash__(self):
         return hash(self.logical_name)
-- 
2.43.0


From f5111a72c8a0232e30c2db993fd07c2c035a63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 019/122] fix: COSEM object encode() returned None for an
 initiated attribute

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index cc696c8..65abbce 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -229,7 +229,8 @@ class COSEMInterfaceClasses(ABC):
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
             ret = attr.copy()
-            return ret.set(value)
+            ret.set(value)
+            return ret
 
     def set_attr(self,
                  index: int,
-- 
2.43.0


From e16b8187a0ea1cbc779dc410c2e93feeb225637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 020/122] fix: OctetString date/time types check the tag,
 LogicalName rejects trailing text

---
 src/DLMS_SPODES/types/cosem_service_types.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index 3713f4e..e11c2d1 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -17,6 +17,8 @@ class LogicalName(cdt.OctetString, size=6):
             except ValueError:
                 element, value = value, ''
             raw_value += typecast(element)
+        if value:
+            raise ValueError(F'unexpected end of {self.__class__.__name__}: {value}')
         return raw_value
 
     def __from_group_A(self, value: str) -> bytes:
@@ -95,8 +97,8 @@ class OctetStringDateTime(cdt.DateTime, tag=9, size=12):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date | datetime.time = b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'):
         match value:  # TODO: common for all OctetDateTimes
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == self.TAG + len(self).to_bytes(1): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -109,8 +111,8 @@ class OctetStringDate(cdt.Date, tag=9, size=5):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date = b'\x09\x05\x07\xe4\x01\x01\xff'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == self.TAG + len(self).to_bytes(1): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -123,8 +125,8 @@ class OctetStringTime(cdt.Time, tag=9, size=4):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.time = b'\x09\x04\x00\x00\x00\x00'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == self.TAG + len(self).to_bytes(1): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
-- 
2.43.0


From c50cec71f32fe27e4f317fea05d767e32f7556cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 021/122] fix: HDLC: truncated address/control crashed the
 receiver with IndexError, address and frame length overflow corrupted other
 fields

---
 src/DLMS_SPODES/hdlc/frame.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index aa5e1a2..49a6920 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -38,7 +38,7 @@ class Format:
                 if self.type != 0xA:
                     raise FormatDataError(F'Frame format type not according HDLC Type 3, must be 0xA, got {hex(self.type)}')
         else:
-            if length.bit_length() <= 13:
+            if 0 <= length < 0x800:
                 value = length
                 if is_segmentation:
                     value |= 0b1010_1_00000000000
@@ -46,7 +46,7 @@ class Format:
                     value |= 0b1010_0_00000000000
                 self.__content = pack('>H', value)
             else:
-                raise ValueError(F'Frame length overflow, max be 2048, got {length}')
+                raise ValueError(F'Frame length overflow, max be 2047, got {length}')
 
     @property
     def content(self) -> bytes:
@@ -114,6 +114,9 @@ class Address:
             else:
                 self.__content = content
         else:
+            for name, value in (("upper", upper_address), ("lower", lower_address or 0)):
+                if not 0 <= value < 0x4000:
+                    raise ValueError(F"got {name} address {value}, expected 0..16383")
             # calculate length
             if not lower_address:
                 if (upper_address & self.__MASK) == 0:
@@ -152,7 +155,9 @@ class Address:
     @classmethod
     def from_frame(cls, value: bytearray) -> Address:
         for it in (0, 1, 3):
-            if value[it] % 2 == 1:
+            if it >= len(value):
+                raise ValueError(F'HDLC address is truncated, got {value.hex(" ")}')
+            elif value[it] % 2 == 1:
                 match it:
                     case 0: new = cls(bytes(value[:1])); break
                     case 1: new = cls(bytes(value[:2])); break
@@ -547,6 +552,8 @@ class Control(IntFlag):
 
     @classmethod
     def from_frame(cls, value: bytearray) -> Control:
+        if len(value) == 0:
+            raise ValueError('HDLC control field is absent')
         return Control(value.pop(0))
 
     @property
-- 
2.43.0


From df9d7d572c14d7d2c89a9a19ea319d9cb02cb2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 022/122] fix: HDLC negotiation: window_receive was never sent,
 full SNRM overflowed its buffer, SNRM was stale after a change, truncated UA
 was accepted; LLC: short header crashed

---
 src/DLMS_SPODES/hdlc/negotiation.py | 13 +++++++------
 src/DLMS_SPODES/hdlc/sub_layer.py   |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index d4b99b6..ae7866f 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -1,10 +1,9 @@
 from dataclasses import dataclass
-from functools import cached_property
 from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
 
-MAX_CONTENT_LENGTH = 0x16
+MAX_CONTENT_LENGTH = 0x17
 FORMAT_IDENTIFIER = 0x81
 GROUP_IDENTIFIER = 0x80
 MAX_INFO_DEFAULT = 128
@@ -30,6 +29,8 @@ class Negotiation(Info):
         """set from UA info"""
         def get_max_information_field(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if data_len > len(data) - 1:
+                raise ValueError(F"got wrong UA {content.hex()}: parameter is truncated")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_MAX_INFO_FIELD_LENGTH <= ret <= MAX_MAX_INFO_FIELD_LENGTH:
                 return ret, memoryview(data[1 + data_len:])
@@ -38,6 +39,8 @@ class Negotiation(Info):
 
         def get_window_size(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if data_len > len(data) - 1:
+                raise ValueError(F"got wrong UA {content.hex()}: parameter is truncated")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_WINDOW_SIZE <= ret <= MAX_WINDOW_SIZE:
                 return ret, memoryview(data[1 + data_len:])
@@ -72,12 +75,10 @@ class Negotiation(Info):
                                 case wrong_tag:
                                     raise ValueError(F"got {wrong_tag=}, expected ")
             self.max_info_receive, self.max_info_transmit, self.window_receive, self.window_transmit = i_rx, i_tx, w_rx, w_tx
-            if hasattr(self, "SNRM"):
-                del self.SNRM
         except IndexError as e:
             raise ValueError(F"got wrong UA {content.hex(' ')}")
 
-    @cached_property
+    @property
     def SNRM(self) -> memoryview:
         def small_pack(field: int, data: int):
             nonlocal buf, offset
@@ -120,7 +121,7 @@ class Negotiation(Info):
         if self.window_transmit != WINDOW_DEFAULT:
             window_pack(self.WINDOW_SIZE_TRANSMIT, self.window_transmit)
         if self.window_receive != WINDOW_DEFAULT:
-            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_transmit)
+            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_receive)
         if offset == 3:
             offset = 0
         else:
diff --git a/src/DLMS_SPODES/hdlc/sub_layer.py b/src/DLMS_SPODES/hdlc/sub_layer.py
index 3a68c1f..0a6a387 100644
--- a/src/DLMS_SPODES/hdlc/sub_layer.py
+++ b/src/DLMS_SPODES/hdlc/sub_layer.py
@@ -15,6 +15,8 @@ class LLC:
     def __init__(self, content: bytearray = None,
                  message: bytes = None):
         if message is None:
+            if len(content) < 3:
+                raise ValueError(F'LLC header is truncated, got {content.hex(" ")}')
             self.__destination_lsap = content.pop(0)
             if self.__destination_lsap not in (self.__DESTINATION__LSAP, self.__BROADCAST):
                 raise ValueError(F'Destination tag wrong, expected {hex(self.__DESTINATION__LSAP), hex(self.__BROADCAST)}, got {hex(self.__destination_lsap)}')
-- 
2.43.0


From 01e410a36642d14a3ce82974466c3401ffdfaebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 023/122] fix: cosem_pdu: lengths above 127 overwrote the
 buffer start and were misread, Data lost the received tag, ByteBuffer checked
 the wrong position, INTEGER.__gt__ and __getitem__ crashed

---
 src/DLMS_SPODES/cosem_pdu.py         |  4 +--
 src/DLMS_SPODES/types/byte_buffer.py |  6 ++--
 src/DLMS_SPODES/types/cosem_pdu.py   | 41 +++++++++++++++-------------
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_pdu.py b/src/DLMS_SPODES/cosem_pdu.py
index 18d7eda..46e19bd 100644
--- a/src/DLMS_SPODES/cosem_pdu.py
+++ b/src/DLMS_SPODES/cosem_pdu.py
@@ -44,11 +44,11 @@ class COSEMPdu(ABC):
     @classmethod
     def from_content(cls, content: bytearray):
         tag = content[0]
-        service = _services.get(tag, None)(content)
+        service = _services.get(tag, None)
         if service is None:
             raise ValueError(F'service with tag:{tag} is absence in Service Dictionary')
         else:
-            return service
+            return service(content)
 
     @property
     @abstractmethod
diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6751b06..8bc108f 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -30,7 +30,7 @@ class ByteBuffer:
 
     def _check_space(self, space: int, pos: int = None):
         """check whether this buffer has enough `space` left for r/w op"""
-        if not pos:
+        if pos is None:
             pos = self.__pos
         if self.remaining(pos) < space:
             raise BufferError(F"{self} not enough more {space=}")
@@ -45,7 +45,7 @@ class ByteBuffer:
                  pos: int,
                  length: int = 1) -> memoryview:
         """return view to position"""
-        self._check_space(length)
+        self._check_space(length, pos)
         ret = self.buf[pos: pos + length]
         return ret
 
@@ -114,7 +114,7 @@ class ByteBuffer:
 
     def set_pos(self, index):
         """set new position, with check"""
-        if 0 <= index < len(self):
+        if 0 <= index <= len(self):
             self.__pos = index
         else:
             raise IndexError(F"{self} can't set {index=}")
diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 474a5c6..597c962 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -34,7 +34,9 @@ class Buffer(ByteBuffer):
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
         define_length = self.get_uint8()
         if define_length & 0b10000000:
-            return self.get_uint(define_length >> 1)
+            if define_length == 0x80:
+                raise ValueError("indefinite length is not supported")
+            return self.get_uint(define_length & 0b01111111)
         else:
             return define_length
 
@@ -47,17 +49,11 @@ class Buffer(ByteBuffer):
         if length < 0x80:
             return self.put_int(length)
         elif length < 0x1_00:
-            _length1.pack_into(self.buf, 0,
-                               0x81, length)
-            return 2
+            return self.write(_length1.pack(0x81, length))
         elif length < 0x1_00_00:
-            _length2.pack_into(self.buf, 0,
-                               0x82, length)
-            return 3
+            return self.write(_length2.pack(0x82, length))
         elif length < 0x1_00_00_00_00:
-            _length4.pack_into(self.buf, 0,
-                               0x84, length)
-            return 5
+            return self.write(_length4.pack(0x84, length))
         else:
             amount = int(log(length, 256)) + 1
             ret: int = self.put_int(0x80 + amount)
@@ -279,7 +275,7 @@ class INTEGER(Simple, ABC):
 
     def __gt__(self, other: Self):
         match other:
-            case INTEGER(): return self.contents > other.value
+            case INTEGER(): return int(self) > int(other)
             case _:          raise TypeError(F'Compare type is {other.__class__}, expected Digital')
 
     def __hash__(self):
@@ -575,8 +571,14 @@ class Choice(UT):
     value: UT
     ELEMENTS: tuple[ChoiceElement, ...]
 
-    def __init__(self, value: UT):
+    def __init__(self, value: UT, element: ChoiceElement = None):
+        """element: the received alternative, several alternatives may share one type"""
         self.value = value
+        self._element = element
+
+    @property
+    def element(self) -> ChoiceElement:
+        return self._element or self._get_element_by_type(self.value.__class__)
 
     def validation(self):
         self._get_element_by_type(self.value.__class__)
@@ -584,14 +586,14 @@ class Choice(UT):
     @classmethod
     def get(cls, buf: Buffer) -> Self:
         el = cls._get_element_by_tag(buf.get_uint8())
-        return cls(el.type.get(buf))
+        return cls(el.type.get(buf), el)
 
     def put(self, buf: Buffer) -> int:
-        buf.put_int(self._get_element_by_type(self.value.__class__).tag)
+        buf.put_int(self.element.tag)
         return 1 + self.value.put(buf)
 
     def __str__(self):
-        el = self._get_element_by_type(self.value.__class__)
+        el = self.element
         return F'{self.__class__.__name__}: {el.name}: {self.value}'
 
     @classmethod
@@ -600,7 +602,8 @@ class Choice(UT):
         tag: str
         if not tag.isdigit():
             raise ValueError(F"in {value}, got {tag=}, expected is digit")
-        return cls(cls._get_element_by_tag(int(tag)).type.from_str(value2))
+        el = cls._get_element_by_tag(int(tag))
+        return cls(el.type.from_str(value2), el)
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
@@ -619,7 +622,7 @@ class Choice(UT):
             raise ValueError(F"not find tag: {value} in {cls.__name__}")
 
     def __eq__(self, other: Self):
-        if self._get_element_by_type(self.value.__class__) == other._get_element_by_type(other.value.__class__) and self.value == other.value:
+        if self.element == other.element and self.value == other.value:
             return True
         else:
             return False
@@ -638,7 +641,7 @@ class Choice(UT):
         return len(self.value) + 1
 
     def __getitem__(self, item):
-        raise self.value[item]
+        return self.value[item]
 
 
 class _SequenceOf(UT):
@@ -676,7 +679,7 @@ class _SequenceOf(UT):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
     def __getitem__(self, item):
-        raise self.values[item]
+        return self.values[item]
 
 
 def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
-- 
2.43.0


From b8a417029d8edfcbccb966c7e1defa89bf7a8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 024/122] fix: numbers, floats and date/time values accepted
 contents of a wrong length, OID association names and Conformance crashed on
 malformed input

---
 src/DLMS_SPODES/types/common_data_types.py          | 11 +++++++++--
 src/DLMS_SPODES/types/implementations/bitstrings.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 4649039..35939bb 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -416,6 +416,7 @@ class Digital(ABC):
                     case self.TAG:                                                     raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                         F'{self.LENGTH}, but got {len(length_and_contents)}')
                     case _ as wrong_tag:                                               raise ValueError(F'Expected {self.TAG} type, got {TAG(wrong_tag)}')
+            case bytearray() if len(value) != self.LENGTH:                             raise ValueError(F'Length of contents for {self.TAG} must be {self.LENGTH}, but got {len(value)}')
             case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str('-') if self.SIGNED:                                              self.contents = bytes(self.LENGTH)
             case int() | float():                                                      self.contents = self.from_int(value)
@@ -595,6 +596,7 @@ class Float(ABC):
                     case self.TAG, _:                                              raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                     F'{len(self)}, but got {len(length_and_contents)}')
                     case _ as wrong_tag, _:                                        raise ValueError(F'Expected {self.TAG} type, got {get_common_data_type_from(wrong_tag).TAG}')
+            case bytearray() if len(value) != len(self):                           raise ValueError(F'Length of contents for {self.TAG} must be {len(self)}, but got {len(value)}')
             case bytearray():                                                      self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                            self.contents = self.from_str(value)
             case int():                                                            self.contents = self.from_float(float(value))
@@ -662,6 +664,7 @@ class __DateTime(ABC):
                     case _ as wrong_tag:
                         raise ValueError(F"got {TAG(wrong_tag)}, expected {self.TAG} type")
             case None:                                                                 self.clear()
+            case bytearray() if len(value) != len(self):                               raise ValueError(F"length of contents for {self.TAG} must be {len(self)}, but got {len(value)}")
             case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                                self.contents = self.from_str(value)
             case datetime.datetime():                                                  self.contents = self.from_datetime(value)
@@ -1355,7 +1358,7 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = True
                         self.__dict__['TAG'] = b'\x09'
                         length, pdu = get_length_and_pdu(length_and_contents)
-                        if length <= len(pdu):
+                        if 0 < length <= len(pdu):
                             xdr = pdu[:length]
                             values_in: deque[int] = deque(xdr)
                             values_index = iter(range(len(self.ELEMENTS)))
@@ -1375,9 +1378,13 @@ class AXDR(ABC):
                                 else:
                                     tmp += values_in.popleft()
                                     # self._set_value(next(values_index), tmp)
-                                    i = next(values_index)
+                                    i = next(values_index, None)
+                                    if i is None:
+                                        raise ValueError(F"A-XDR object identifier {xdr.hex()} is too long")
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
+                            if None in values:
+                                raise ValueError(F"A-XDR object identifier {xdr.hex()} is truncated")
                             self.__dict__['values'] = tuple(values)
                         else:
                             raise ValueError(F"expected {self.TAG} type, got {TAG(encoding[:1])}")
diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index e7ff596..7253c4e 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -49,7 +49,7 @@ class Conformance(cdt.BitString):
         match value[:1]:
             case self.TAG if len(self) <= len(pdu) * 8: return pdu[:3]
             case self.TAG:                              raise ValueError(F'Got pdu length:{len(pdu)}, expected at least {len(self) >> 3}')
-            case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
+            case _ as error:                            raise ValueError(F'Expected {self.TAG} type, got {cdt.TAG(error)}')
 
     def from_str(self, value: str) -> bytes:
         value = value + '0' * ((8 - len(self)) % 8)
-- 
2.43.0


From bd1cf042b76dfe1607e5d01d7e3c9d5e7b4294bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 025/122] fix: AppVersion without patch couldn't be ordered
 against a version with one

---
 src/DLMS_SPODES/version.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index eba8e65..9a8e18c 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -62,12 +62,12 @@ class AppVersion:
             return True
         elif self.__minor < other.minor:
             return False
-        if self.__patch is None:
-            return False
-        elif self.__patch > other.patch:
-            return True
-        else:
-            return False
+        return self.__patch_order(self) > self.__patch_order(other)
+
+    @staticmethod
+    def __patch_order(value: AppVersion) -> int:
+        """version without patch is the first in its minor branch"""
+        return -1 if value.patch is None else value.patch
 
     def __ge__(self, other: AppVersion):
         if self.__major > other.major:
@@ -78,14 +78,7 @@ class AppVersion:
             return True
         elif self.__minor < other.minor:
             return False
-        if self.__patch is None:
-            return True
-        elif self.__patch > other.patch:
-            return True
-        elif self.__patch < other.patch:
-            return False
-        else:
-            return True
+        return self.__patch_order(self) >= self.__patch_order(other)
 
     def __str__(self):
         return F'{self.__major}.{self.__minor}{F".{self.__patch}" if self.__patch is not None else ""}'
@@ -106,4 +99,4 @@ class AppVersion:
 
     def select_nearest(self, variants: list[AppVersion]) -> AppVersion | None:
         """ select left nearest from list in minor branch else return None """
-        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.patch <= self.__patch, variants), default=None)
+        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and self >= var, variants), default=None)
-- 
2.43.0


From 315bc6693a47b15b534a3630e0c7751e0c0d79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 026/122] fix: packaged config.toml was never found, import
 failed in a directory without config.toml

---
 src/DLMS_SPODES/config_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/config_parser.py b/src/DLMS_SPODES/config_parser.py
index 6ef84dd..cff76f4 100644
--- a/src/DLMS_SPODES/config_parser.py
+++ b/src/DLMS_SPODES/config_parser.py
@@ -38,9 +38,7 @@ def get_values2(*args: str) -> tuple[str, int]:
 
 
 if not os.path.isfile(path := ".//config.toml"):
-    path = F"{os.path.dirname(__file__)}{path}"
-elif not os.path.isfile(path):
-    logger.warning("NOT FIND CONFIGURATION: <config.toml>")
+    path = os.path.join(os.path.dirname(__file__), "config.toml")
 with open(path, "rb") as f:
     config = tomllib.load(f)
     logger.info(F"Find configuration <config.toml> with path: {f}")
-- 
2.43.0


From 9ff2a759fc06b49a4c8869eb9154a7635fc85985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 027/122] fix: useful_types: truncated sequence raised
 TypeError, CHOICE crashed on an empty or unknown encoding, Data lost the
 alternative given by from_str

---
 src/DLMS_SPODES/types/useful_types.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 2887a24..2ec78f9 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -97,8 +97,6 @@ class Sequence(UT, ABC):
         for f in fields(cls):
             new, value = get_instance_and_context(f.type, value)
             values.append(new)
-            if not len(value):
-                break
         return cls(*values)
 
     def __str__(self):
@@ -353,7 +351,10 @@ class Choice(UT):
         tag: str
         if not tag.isdigit():
             raise ValueError(F"in {value}, got {tag=}, expected is digit")
-        return cls(cls._get_element_by_tag(int(tag)).type.from_str(value2))
+        el = cls._get_element_by_tag(int(tag))
+        new = cls(el.type.from_str(value2))
+        new._element = el
+        return new
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
@@ -372,7 +373,7 @@ class Choice(UT):
             raise ValueError(F"not find tag: {value} in {cls.__name__}")
 
     def __eq__(self, other: Self):
-        if self._get_element_by_type(self.value.__class__) == other._get_element_by_type(other.value.__class__) and self.value.contents == other.value.contents:
+        if self.element == other.element and self.value.contents == other.value.contents:
             return True
         else:
             return False
@@ -402,10 +403,14 @@ class CHOICE(ABC):
         try:
             match value:
                 case bytes() as encoding:
+                    if len(encoding) == 0:
+                        raise ValueError(F"for {self.__class__.__name__} got empty encoding")
                     match self.ELEMENTS[encoding[0]]:
                         case SequenceElement() as el: return el.TYPE(encoding)
                         case dict() as ch:
-                            if encoding[1] in ch.keys():
+                            if len(encoding) < 2:
+                                raise ValueError(F"for {self.__class__.__name__} got encoding: {encoding.hex()} without length")
+                            elif encoding[1] in ch.keys():
                                 return ch[encoding[1]].TYPE(encoding)  # use for choice cst.Time | DateTime | Date as OctetString
                             else:
                                 raise ValueError(F"got type with tag: {encoding[0]} and length: {encoding[1]}, expected length {tuple(ch.keys())}")
@@ -415,7 +420,7 @@ class CHOICE(ABC):
                 case None:                            return tuple(self.ELEMENTS.values())[0].TYPE()
                 case error:                           raise ValueError(F'Unknown value type {error}')
         except KeyError as e:
-            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.ELEMENTS.values()))}")
+            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.__get_elements()))}")
 
     def __get_elements(self) -> list[SequenceElement]:
         """all elements with nested values"""
-- 
2.43.0


From 2ed50fa121e45796e0babfa6056fab0715bab457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 028/122] fix: structures with a value chosen by type couldn't
 be set at all, default push protection options had no encoding

---
 src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py | 2 +-
 src/DLMS_SPODES/types/choices.py                           | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
index 6ddf4b2..fccf49c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
@@ -66,7 +66,7 @@ class ConfirmationParameters(cdt.Structure):
 class KeyInfoElement(choices.StructureMixin, cdt.Structure):
     """Override several methods of cdt.Structure. It limited Structure."""
     key_info_type: enums.KeyInfoType
-    key_info_options: choices.KeyInfoOptions
+    key_info_options: choices.key_info_options
 
 
 class ProtectionOptions(cdt.Structure):
diff --git a/src/DLMS_SPODES/types/choices.py b/src/DLMS_SPODES/types/choices.py
index 43dc184..800d9a2 100644
--- a/src/DLMS_SPODES/types/choices.py
+++ b/src/DLMS_SPODES/types/choices.py
@@ -124,6 +124,10 @@ class StructureMixin:
         self.values.append(self.ELEMENTS[1].TYPE(int(self.values[0])))
         self.values[1].set(sequence[1])
 
+    def set(self, value: bytes | bytearray | tuple | list | None):
+        """type of second element depend from first, replace both"""
+        self.values[:] = self.__class__(value).values
+
     def from_content(self, value: bytes):
         el_value, pdu = cdt.get_instance_and_pdu(self.ELEMENTS[0].TYPE, value)
         self.values.append(el_value)
-- 
2.43.0


From af4bcdec698fd3b3aba38c6c7afc31e45202dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 029/122] fix: Conformance accepted contents and strings of a
 wrong length

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index 7253c4e..59ce77d 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -36,8 +36,8 @@ class Conformance(cdt.BitString):
 
     def __init__(self, value: bytes | bytearray | str | int | cdt.BitString = None):
         super(Conformance, self).__init__(value)
-        if self.ELEMENTS is not None and len(self) != len(self.ELEMENTS):
-            raise ValueError(F'For {self.__class__.__name__} get {len(self)} bits, expected {len(self.ELEMENTS)}')
+        if len(self.contents) * 8 != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(self.contents) * 8} bits, expected {len(self)}')
 
     def __len__(self):
         return len(self.ELEMENTS)
@@ -52,6 +52,8 @@ class Conformance(cdt.BitString):
             case _ as error:                            raise ValueError(F'Expected {self.TAG} type, got {cdt.TAG(error)}')
 
     def from_str(self, value: str) -> bytes:
+        if len(value) != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value)} bits, expected {len(self)}')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
-- 
2.43.0


From 6e47055bf76c78bfe5263dc3f5703498aa53ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 030/122] fix: 29 February of every year couldn't be decoded
 nor searched for

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 35939bb..2c44147 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2076,7 +2076,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
         year = year_highbyte*256+year_lowbyte
         deviation = int.from_bytes((deviation_highbyte, deviation_lowbyte), 'big', signed=True)
-        return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
+        return datetime.datetime(year=year if year != 0xffff else 4 if (month, day_of_month) == (2, 29) else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
                                  hour=hour if hour != 0xff else 0,
@@ -2185,7 +2185,7 @@ class Date(__DateTime, __Date, SimpleDataType):
     def decode(self) -> datetime.date:
         year_highbyte, year_lowbyte, month, day_of_month, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        return datetime.date(year=year if year != 0xffff else datetime.MINYEAR,
+        return datetime.date(year=year if year != 0xffff else 4 if (month, day_of_month) == (2, 29) else datetime.MINYEAR,
                              month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                              day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1)
 
-- 
2.43.0


From c328969303a727f0cfc02833c0d2238bb74054eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 031/122] fix: HDLC: segments of one window were dropped by
 join_info, because only the last one has the final bit

---
 src/DLMS_SPODES/hdlc/frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 49a6920..6908ded 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -815,6 +815,8 @@ class Frame:
 
     def is_next_send(self, other: Frame) -> bool:
         """ return TRUE if frame is next information frame of current. Other must be previous. """
+        if self.__control.is_info() and other.control.is_info():  # poll/final is set on last frame of window only
+            return self.__control & 0b000_0_111_0 == Control.next_send_sequence(other.control) & 0b000_0_111_0
         return self.__control == Control.next_send_sequence(other.control)
 
     @staticmethod
-- 
2.43.0


From d5ed8ddd16a761423295c5e33ae6f75c3ec61a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 032/122] fix: useful_types: selective access descriptors
 couldn't be decoded, access_parameters referred to the placeholder Data

---
 src/DLMS_SPODES/types/useful_types.py | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 2ec78f9..23f49f2 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -895,13 +895,6 @@ class CosemObjectMethodId(Integer8):
     """Cosem-Object-Method-Id"""
 
 
-@dataclass
-class SelectiveAccessDescriptor(Sequence):
-    """COSEMpdu_GB83 Selective-Access-Descriptor"""
-    access_selector: Unsigned8
-    access_parameters: Data
-
-
 @dataclass
 class CosemAttributeDescriptor(Sequence):
     """COSEMpdu_GB83 Cosem-Attribute-Descriptor"""
@@ -910,13 +903,6 @@ class CosemAttributeDescriptor(Sequence):
     attribute_id: CosemObjectAttributeId
 
 
-@dataclass
-class CosemAttributeDescriptorWithSelection(Sequence):
-    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
-    cosem_attribute_descriptor: CosemAttributeDescriptor
-    access_selection: SelectiveAccessDescriptor
-
-
 @dataclass
 class CosemMethodDescriptor(Sequence):
     class_id: CosemClassId
@@ -952,3 +938,17 @@ class Data(Choice):
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
         ChoiceElement(name="dont-care",             tag=255, type=Null)
     )
+
+
+@dataclass
+class SelectiveAccessDescriptor(Sequence):
+    """COSEMpdu_GB83 Selective-Access-Descriptor"""
+    access_selector: Unsigned8
+    access_parameters: Data
+
+
+@dataclass
+class CosemAttributeDescriptorWithSelection(Sequence):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
+    cosem_attribute_descriptor: CosemAttributeDescriptor
+    access_selection: SelectiveAccessDescriptor
-- 
2.43.0


From 7f888c88d728e9c2c3ac013fc100bdd14a704edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 033/122] fix: useful_types: BitString couldn't be coded after
 inverse() or after setting a bit from bool

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 23f49f2..51cbde2 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -560,11 +560,11 @@ class BitString(UT):
         return ''.join(map(str, self.value))
 
     def __setitem__(self, key: int, value: int | bool):
-        self.value[key] = value
+        self.value[key] = int(value)
 
     def inverse(self, index: int):
         """ inverse one bit by index"""
-        self.value[index] = not self.value[index]
+        self.value[index] = int(not self.value[index])
 
     # def __lshift__(self, other):
     #     for i in range(other):
-- 
2.43.0


From 4c87923c59735478cd8c47fd939e07ec94527c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 034/122] fix: relation group: TypeError for twisted pair
 setup, payment metering and gas flow rate codes, gas process values were
 never matched

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9f23150..98f6745 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2321,7 +2321,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 18 and ln.d == 0:
             return media_id.ARRAY_MANAGER_OBJECT
         elif ln.c == 19:
-            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or ln.d in (range(50, 60) and ln.e in (1, 2)):
+            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or (ln.d in range(50, 60) and ln.e in (1, 2)):
                 return media_id.PAYMENT_METERING_RELATED_OBJECTS
         elif ln.c == 20 and ln.d == 0 and ln.e in (0, 1):
             return media_id.IEC_LOCAL_PORT_SETUP_OBJECTS
@@ -2330,7 +2330,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 22 and ln.d == 0 and ln.e == 0:
             return media_id.IEC_HDLC_SETUP_OBJECTS
         elif ln.c == 23:
-            if (ln.d in 0, 1, 2 and ln.e == 0) or ln.d == 3:
+            if (ln.d in (0, 1, 2) and ln.e == 0) or ln.d == 3:
                 return media_id.IEC_TWISTED_PAIR_1_SETUP_OBJECTS
         elif ln.c == 24:
             if (ln.d in (0, 1, 4, 5, 6) and ln.e == 0) or (ln.d in (2, 8, 9)):
@@ -2617,11 +2617,11 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
         elif ln.c == 42 and ln.e == 0:
-            if ln.d in chain(0, 1, 2, 13, range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
+            if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in (0, 2, 3, 10, 11, 13, range(15, 92)) and ln.e == 0 and ln.f == 255:
+        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in chain((0, 2, 3, 10, 11, 13), range(15, 92)) and ln.e == 0 and ln.f == 255:
             return media_id.MEASURED_VALUES_GAS_PROCESS_VALUES
         elif ln.c in range(51, 56):
             if ln.d in (0, 2, 3, 10, 11) and ln.e in chain((0, 1), range(11, 29)) and ln.f == 255:
-- 
2.43.0


From 87a831999c402b0d4a2448f4cd94a8c60ec75efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 035/122] fix: relation group: thermal energy values with c
 10..13, error registers, lists and profiles were not recognised

---
 .../cosem_interface_classes/collection.py     | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 98f6745..377ddd0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2569,22 +2569,23 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
                 elif ln.d in (1, 2, 4, 5, 12, 13, 14, 15) and ln.f in chain(range(100), range(100, 126)):
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
-            elif ln.d == 6 and ln.e == 255 and ln.f == 255:
-                return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
-        elif ln.e in range(10):
-            if ln.f in __range100_and_101_125_and_255:
-                if ln.c in range(1, 8) and ln.d in (5, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.c in (8, 9) and ln.d in (1, 4, 5, 12, 13, 14, 15):
+                elif ln.d in (5, 15) and ln.f in __range100_and_101_125_and_255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(10, 14):
-                if ln.d == 0 and ln.f == 255:
+                elif ln.d in range(20, 26) and ln.f == 255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.d in (4, 5, 14, 15) and ln.f in chain(range(100), range(101, 126)):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.d in (6, 7, 10, 11) and ln.f == 255:
+            elif ln.d == 6 and ln.e == 255 and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
+        elif ln.c in range(8, 14) and ln.e in range(10):
+            if ln.d in range(20, 26) and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.c in (8, 9):
+                if ln.d in (1, 4, 5, 12, 13, 14, 15) and ln.f in __range100_and_101_125_and_255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(1, 14) and (ln.d in range(20, 26)) and ln.f == 255:
+            elif ln.d == 0 and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.d in (4, 5, 14, 15) and ln.f in chain(range(100), range(101, 126)):
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.d in (6, 7, 10, 11) and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_ENERGY
         elif ln.c == 97 and ln.d == 97 and ln.e in (0, 1, 2):
             return media_id.ERROR_REGISTER_OBJECTS_THERMAL
-- 
2.43.0


From 7c8635270587e27905ee1e366bee25c0ee5c78c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 036/122] fix: relation group: codes without a group of their
 own were put into another medium

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 377ddd0..bf7db93 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2670,7 +2670,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             return media_id.DATA_PROFILE_OBJECTS_WATER
         else:
             return media_id.WATER
-    return media_id.OTHER_MEDIA
+    return next((m for m in RelationGroups if m == ln.a), media_id.OTHER_MEDIA)
 
 
 DLMSObjectContainer: TypeAlias = Collection | list[InterfaceClass] | filter
-- 
2.43.0


From 9a0462ff782ca45a780c26aabe1cf1487e1ff3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 037/122] fix: get_filtered: nothing was found by class or
 group without a pattern, media were compared with group numbers

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index bf7db93..c74095a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2273,9 +2273,9 @@ def get_filtered(objects: list[InterfaceClass],
             continue
         elif group and get_relation_group(obj.logical_name).subgroup not in group:
             continue
-        elif media and get_media_id(obj.logical_name) not in media:
+        elif media and get_media_id(obj.logical_name).subgroup not in media:
             continue
-        elif obj.logical_name not in patterns:
+        elif patterns and obj.logical_name not in patterns:
             continue
         new_list.append(obj)
     return new_list
-- 
2.43.0


From 7ce575fbf3edb79d9508a308d40a48005f27b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 038/122] fix: get_object_tree: a tuple of objects was refused

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index c74095a..f4c1b19 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2161,7 +2161,7 @@ def get_object_tree(objects: list[InterfaceClass] | tuple[InterfaceClass],
         stack = [(None, None, ret)]
         while len(stack) != 0:
             d, k, v = stack.pop()
-            if isinstance(v, list):
+            if isinstance(v, (list, tuple)):
                 res = get_map_by_obj(v, key)
                 if d is None:
                     ret = res
-- 
2.43.0


From 3db6df3830df1f986c63dfd8fe9f5685b4143a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 039/122] fix: collection: access rights, versions and objects
 were answered from caches shared by equal collections and not updated after
 changes

---
 .../cosem_interface_classes/collection.py      | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index f4c1b19..c9d5859 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, cached_property, lru_cache
+from functools import reduce, lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1404,7 +1404,6 @@ class Collection:
                 logger.warning(F'Dont remove with: {logical_name}')
                 return False
 
-    @lru_cache(maxsize=100)  # amount of all classID
     def find_version(self, class_id: CosemClassId) -> cdt.Unsigned:
         """use for add new object from profile_generic if absence in object list"""
         return next(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values())).VERSION
@@ -1511,11 +1510,11 @@ class Collection:
         else:
             return obj
 
-    @cached_property
+    @property
     def LDN(self) -> impl.data.LDN:
         return self.__get_object(o.LDN)
 
-    @cached_property
+    @property
     def current_association(self) -> AssociationLN:
         return self.__get_object(o.CURRENT_ASSOCIATION)
 
@@ -1525,7 +1524,7 @@ class Collection:
     def getAssociationBySAP(self, SAP: enums.ClientSAP) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, self.get_association_id(SAP), 255)))
 
-    @cached_property
+    @property
     def PUBLIC_ASSOCIATION(self) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, 1, 255)))
 
@@ -1548,7 +1547,7 @@ class Collection:
     def getIECHDLCSetup(self, ch: int = 0) -> IECHDLCSetup:
         return self.__get_object(bytes((0, ch, 22, 0, 0, 255)))
 
-    @cached_property
+    @property
     def TCP_UDP_setup(self) -> TCPUDPSetup:
         return self.__get_object(bytes((0, 0, 25, 0, 0, 255)))
 
@@ -1575,7 +1574,7 @@ class Collection:
     def firmware_version(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 2, 255)))
 
-    @cached_property
+    @property
     def device_type(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 1, 255)))
 
@@ -1692,7 +1691,6 @@ class Collection:
         else:
             raise ValueError(F"object with {ln} is not {ScriptTable.CLASS_ID}")
 
-    @lru_cache(4)
     def get_association_id(self, client_sap: enums.ClientSAP) -> int:
         """return id(association instance) from it client address without current"""
         for ass in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
@@ -1703,7 +1701,6 @@ class Collection:
         else:
             raise ValueError(F"absent association with {client_sap}")
 
-    @lru_cache(maxsize=1000)
     def is_readable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1715,7 +1712,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_writable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1727,7 +1723,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_accessible(self, ln: cst.LogicalName,
                       index: int,
                       association_id: int,
@@ -1741,7 +1736,6 @@ class Collection:
             m_id=m_id
         )
 
-    @lru_cache(maxsize=100)
     def get_name_and_type(self, value: structs.CaptureObjectDefinition) -> tuple[list[str], Type[cdt.CommonDataType]]:
         """ return names and type of element from collection"""
         names: list[str] = list()
-- 
2.43.0


From 2fb53b281acffa308c37f09b4e36d603c6082eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 040/122] fix: collection: get_objects_by_class_id failed with
 AttributeError for a CosemClassId, so types couldn't be saved

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index c9d5859..abfedc9 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1459,7 +1459,7 @@ class Collection:
             raise exc.NoObject(F"not found at least one DLMS Objects from collection with {values=}")
 
     def get_objects_by_class_id(self, value: int | CosemClassId) -> list[InterfaceClass]:
-        class_id = CosemClassId(value)
+        class_id = CosemClassId(int(value))
         return list(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values()))
 
     def get_objects_descriptions(self) -> list[tuple[cst.LogicalName, cdt.LongUnsigned, cdt.Unsigned]]:
-- 
2.43.0


From edcb36ae9fc19838d7c139893508b128266d21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 041/122] fix: to_xml4: values after an empty string or array
 were lost

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index abfedc9..e4748c5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1184,7 +1184,7 @@ class Collection:
                                     while stack:
                                         node, name, value_it = stack[-1]
                                         value = next(value_it, None)
-                                        if value:
+                                        if value is not None:
                                             if not isinstance(name, str):
                                                 name = next(name).NAME
                                             if isinstance(value, cdt.Array):
@@ -1926,7 +1926,7 @@ def to_xml4(collections: list[Collection],
                             while stack:
                                 node, name, value_it = stack[-1]
                                 value = next(value_it, None)
-                                if value:
+                                if value is not None:
                                     if not isinstance(name, str):
                                         name = next(name).NAME
                                     if isinstance(value, cdt.Array):
-- 
2.43.0


From e94c56bc1d744b2e8062d6c09c10d9f5f5390dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 042/122] fix: register_monitor: thresholds set before the
 monitored value were lost, an unset monitored value made their type NoneType

---
 .../cosem_interface_classes/register_monitor.py        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 7b6b9a4..9a1308a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -46,4 +46,12 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
         return self.get_attr(4)
 
     def __set_threshold_type(self):
-        self.thresholds.set_type(self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index)).__class__)
+        """thresholds have the type of the monitored value, the already known ones are kept if they are of this type"""
+        type_ = self.collection.get_object(self.monitored_value.logical_name).get_attr_data_type(int(self.monitored_value.attribute_index))
+        if isinstance(type_, ut.CHOICE):
+            return  # the type of the monitored value is unknown yet
+        old_values = self.thresholds.encoding
+        known = all(el.TAG == type_.TAG for el in self.thresholds)
+        self.thresholds.set_type(type_)
+        if known:
+            self.thresholds.set(old_values)
-- 
2.43.0


From dfbbc179c37fae9a820dadf0f01adb41cfcc73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 043/122] fix: Collection.copy: the second of two objects
 failing in a row lost its values

---
 .../cosem_interface_classes/collection.py     | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index e4748c5..26162b4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -623,25 +623,20 @@ class Collection:
                     max_ass = obj
         obj_for_set = max_ass.get_objects()
         ass_id: int = max_ass.logical_name.e
-        last_length = len(obj_for_set)
-        raise_count = None
+        failures = 0
+        """amount of objects failed one after another"""
         while len(obj_for_set) != 0:
             obj = obj_for_set.pop(0)
             try:
                 new_collection.__container.get(obj.logical_name.contents).copy(obj, ass_id)
-                raise_count = None
+                failures = 0
             except Exception as e:
-                if last_length == len(obj_for_set):
-                    if not raise_count:
-                        raise_count = count(last_length, -1)
-                        continue
-                    else:
-                        next(raise_count)
-                        raise e
-                else:
-                    last_length = len(obj_for_set)
-                    logger.warning(F"can't set value. {e}. leftover {len(obj_for_set)} objects")
-                    obj_for_set.append(obj)
+                failures += 1
+                obj_for_set.append(obj)
+                logger.warning(F"can't set value. {e}. leftover {len(obj_for_set)} objects")
+                if failures > len(obj_for_set):  # nobody was set in the whole round
+                    logger.error(F"can't copy {', '.join(map(str, obj_for_set))}. {e}")
+                    break
         return new_collection
 
     @property
-- 
2.43.0


From 3b36c8d4ad293acb38e840c616db921b9c2c868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 044/122] fix: from_xml4: the verified mark was never read

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 26162b4..7934699 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2022,7 +2022,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
-    return cols, used, bool(int(objects.findtext("verified", default="0")))
+    return cols, used, bool(int(objects.attrib.get("verified", objects.findtext("verified", default="0"))))
 
 
 if config is not None:
-- 
2.43.0


From 49dcb4b6e3c4c7f80a907f91aaa27b6876855b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 045/122] fix: from_xml2: values saved by to_xml2 were silently
 skipped

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 7934699..72cb6a9 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1105,7 +1105,7 @@ class Collection:
                         raise ValueError(F"got object with {ln=} not find in collection. Abort attribute setting")
                     else:
                         new_object = self.get_object(logical_name)
-                        for attr in obj.findall("attr"):
+                        for attr in (*obj.findall("attr"), *obj.findall("attribute")):  # to_xml2 writes <attribute>
                             index: int = int(attr.attrib.get("index"))
                             try:
                                 new_object.set_attr(index, bytes.fromhex(attr.text))
-- 
2.43.0


From 2bd14534fd1d09067fb3945438e646a89d493d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 046/122] fix: to_xml2: writable attributes were chosen by
 association 3 instead of the given one

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 72cb6a9..720efe2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1228,7 +1228,7 @@ class Collection:
                     """skip ln"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
-                elif not col.is_writable(obj.logical_name, i, 3):
+                elif not col.is_writable(obj.logical_name, i, association_id):
                     """skip not writable"""
                 elif col.get_object(obj.logical_name).get_attr(i) == attr:
                     """skip not changed attr value"""
-- 
2.43.0


From 59a4f6ee858fa75c6e415278c503884c9058daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 047/122] fix: Collection.copy: TypeError when an association
 without object_list goes first

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 720efe2..0318cf3 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -619,7 +619,7 @@ class Collection:
             new_collection.__container[obj.logical_name.contents] = new_obj
             new_obj.collection = new_collection
             if obj.CLASS_ID == classID.ASSOCIATION_LN:
-                if max_ass is None or (obj.object_list and len(max_ass.object_list) < len(obj.object_list)):
+                if obj.object_list is not None and (max_ass is None or len(max_ass.object_list) < len(obj.object_list)):
                     max_ass = obj
         obj_for_set = max_ass.get_objects()
         ass_id: int = max_ass.logical_name.e
-- 
2.43.0


From d9cda8a2aff83de4327968f10ae29ad40383fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 048/122] fix: collection: server version without patch or
 without instance 0 raised TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 0318cf3..7ff6099 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -718,7 +718,7 @@ class Collection:
         else:
             if value.major != self.__server_ver[instance].major or value.minor != self.__server_ver[instance].minor:
                 raise ValueError(F"attempt set server version[{instance}]: {value}, existed {self.__server_ver[instance]}. Execute search of type")
-            elif value.patch <= self.__server_ver[instance].patch:
+            elif value <= self.__server_ver[instance]:
                 """success validation"""
             else:
                 raise ValueError(F"got more hi patch: {value} expected before {self.__server_ver[instance].patch}")
@@ -1314,7 +1314,7 @@ class Collection:
             if self.country_ver == AppVersion(3, 0):
                 self.__spec = "SPODES_3"
             if self.manufacturer == b"KPZ":
-                if self.server_ver and self.server_ver.get(0) < AppVersion(1, 3, 30):
+                if (ver := self.server_ver.get(0)) is not None and ver < AppVersion(1, 3, 30):
                     self.__spec = "KPZ1"
                 else:
                     self.__spec = "KPZ"
-- 
2.43.0


From 5b55a5ead36e7d43ac441cb0f74cd32696de3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 049/122] fix: get_attr_tree: groups without attributes were
 left in nested trees

---
 .../cosem_interface_classes/collection.py           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 7ff6099..8beda5e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1777,10 +1777,6 @@ class Collection:
         stack = [(None, None, ret)]
         while len(stack) != 0:
             d, k, v = stack.pop()
-            if isinstance(d, dict):
-                for k_, v_ in tuple(d.items()):
-                    if len(v_) == 0:
-                        d.pop(k_)
             if isinstance(v, list):
                 objects = dict()
                 for obj in v:
@@ -1805,6 +1801,15 @@ class Collection:
                     stack.append((v, k_, v_))
             else:
                 raise ValueError('not support')
+
+        def remove_empty(node: dict):
+            for k_, v_ in tuple(node.items()):
+                if isinstance(v_, dict):
+                    remove_empty(v_)
+                if len(v_) == 0:
+                    node.pop(k_)
+
+        remove_empty(ret)
         return ret
 
     # def decode(self, file_name: str,
-- 
2.43.0


From fed8da29f8c4ab0679b2d3baa77c1f0dc3a57cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 050/122] fix: collection: values of another collection
 couldn't be copied (TypeError), success was reported if one object was
 written

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 8beda5e..cd0102c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, lru_cache
+from functools import lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1477,7 +1477,7 @@ class Collection:
         """ copy all attributes value from other and return bool result """
         try:
             obj: InterfaceClass = self.__get_object(other.get_obis())
-            for i, attr in other.get_index_with_attributes(in_init_order=True):
+            for i, attr in other.get_index_with_attributes():
                 if i == 1:
                     continue
                 else:
@@ -1490,7 +1490,7 @@ class Collection:
     def copy_objects_attr_values_from(self, other: Collection) -> bool:
         """ Copy collections values and return True if all was writen """
         if len(other) != 0:
-            return bool(reduce(lambda a, b: a or b, map(self.copy_obj_attr_values_from, other.values())))
+            return all([self.copy_obj_attr_values_from(obj) for obj in other.values()])
         else:
             return False
 
-- 
2.43.0


From bf8856ebfed40ddad212dd591b5891f5fbd03a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 051/122] fix: Boolean: a text which isn't boolean raised
 TypeError instead of ValueError

---
 src/DLMS_SPODES/types/common_data_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 2c44147..ef3c08f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1440,6 +1440,7 @@ class Boolean(SimpleDataType):
         elif value == '1' or 'True'.startswith(value.title()) or 'Правда'.startswith(value.title()) or \
                 'Yes'.startswith(value.title()) or 'Да'.startswith(value.title()):
             return b'\x01'
+        raise ValueError(F"can't convert {value=} to {self.TAG}")
 
     def from_bool(self, value: bool) -> bytes:
         return b'\x01' if value else b'\x00'
-- 
2.43.0


From 8f1ddab38ab566ece898c5079aef5b5500ec6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 052/122] fix: disconnect_control: text of output_state wasn't
 accepted back

---
 .../cosem_interface_classes/disconnect_control.py         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py b/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py
index 490460d..9ffed60 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py
@@ -37,6 +37,14 @@ class OutputState(cdt.Boolean):
     def __str__(self):
         return get_message("$disconnected$") if self.contents == b'\x00' else get_message("$connected$")
 
+    def from_str(self, value: str) -> bytes:
+        """accept own text too"""
+        if value == get_message("$disconnected$"):
+            return b'\x00'
+        elif value == get_message("$connected$"):
+            return b'\x01'
+        return super().from_str(value)
+
 
 class DisconnectControl(ic.COSEMInterfaceClasses):
     """DLMS UA 1000-1 Ed. 14 4.5.8 Disconnect control"""
-- 
2.43.0


From 08727a30107b101ef2c6ee972021187b36f92d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 053/122] fix: clock status: daylight saving flag is bit 7

---
 src/DLMS_SPODES/cosem_interface_classes/clock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/clock.py b/src/DLMS_SPODES/cosem_interface_classes/clock.py
index 1172836..b8da858 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/clock.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/clock.py
@@ -18,7 +18,7 @@ class ClockStatus(cdt.Unsigned):
             ret += ' different clock base'
         if bool(value & 0b1000):
             ret += ' invalid clock status'
-        if bool(value & 0b1000000):
+        if bool(value & 0b10000000):
             ret += ' daylight saving active'
         if ret == '':
             ret = 'empty'
-- 
2.43.0


From 61c4272707689ae8c3b000083b358e0aa5e5e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 054/122] fix: communication port: interface kept bits of the
 previous one

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 3403967..210bd10 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -118,7 +118,7 @@ class ChannelNumberValue(cdt.Unsigned):
 
     @interface.setter
     def interface(self, value: enu.Interface):
-        self.set((int(self) & 0b0001_1111) | (value << 3))
+        self.set((int(self) & 0b0000_0111) | (value << 3))
 
     def get_report(self, with_unit: bool = True) -> str:
         return F"Номер канала связи: {self.channel.name}, Тип интерфейса: {self.interface.name}"
-- 
2.43.0


From 24436e90bcdecbbab69ff952ed9e099d78b31c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 055/122] fix: enum without listed elements had no default
 value and no text

---
 src/DLMS_SPODES/types/common_data_types.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ef3c08f..a0e57e1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1846,7 +1846,7 @@ class Enum(SimpleDataType, ABC):
         if value.isdigit():
             return self.from_int(int(value))
         else:
-            for enum in self.ELEMENTS:
+            for enum in self.ELEMENTS or ():
                 if value == self.ELEMENTS[enum]:
                     return enum
             else:
@@ -1854,7 +1854,7 @@ class Enum(SimpleDataType, ABC):
 
     def from_none(self):
         """first key value"""
-        return next(iter(self.ELEMENTS))
+        return b'\x00' if self.ELEMENTS is None else next(iter(self.ELEMENTS))
 
     def validation(self):
         """ check value after inited. Maybe override """
@@ -1886,7 +1886,7 @@ class Enum(SimpleDataType, ABC):
             case _: super().__setattr__(key, value)
 
     def __str__(self):
-        return self.ELEMENTS[self.contents]
+        return str(int(self)) if self.ELEMENTS is None else self.ELEMENTS[self.contents]
 
     @property
     def value(self) -> str:
@@ -1903,7 +1903,7 @@ class Enum(SimpleDataType, ABC):
             type(self)(value=value)
             return value, cursor_position
         except ValueError as e:
-            for index in self.ELEMENTS:
+            for index in self.ELEMENTS or ():
                 if self.ELEMENTS[index].startswith(value):
                     return value, cursor_position
             else:
@@ -1912,7 +1912,7 @@ class Enum(SimpleDataType, ABC):
     @classmethod
     def get_values(cls) -> list[str]:
         """ TODO: """
-        return [values_dict for values_dict in cls.ELEMENTS.values()]
+        return [] if cls.ELEMENTS is None else [values_dict for values_dict in cls.ELEMENTS.values()]
 
     def decode(self) -> int:
         """ return the build in integer type """
@@ -1931,7 +1931,7 @@ class Enum(SimpleDataType, ABC):
         """ nothing do it. TODO: may be to default? """
 
     def __len__(self):
-        return len(self.ELEMENTS)
+        return 256 if self.ELEMENTS is None else len(self.ELEMENTS)
 
 
 class Float32(Float, SimpleDataType):
-- 
2.43.0


From dc8be9d870e2105576750d80ca35c26639fdb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 056/122] fix: relation group of gas flow rate is that of c 43,
 values of c 42 were taken for it

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index cd0102c..4d94679 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2611,7 +2611,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
-        elif ln.c == 42 and ln.e == 0:
+        elif ln.c == 43 and ln.e == 0:
             if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
-- 
2.43.0


From 6d9518b71658760ac492851a85dfe4b368479e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 057/122] fix: Array.pop without index raised TypeError

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a0e57e1..25a4b62 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -292,7 +292,7 @@ class __Array(ABC):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-        return self.values.pop(index)
+        return self.values.pop() if index is None else self.values.pop(index)
 
     def __len__(self):
         return len(self.values)
-- 
2.43.0


From cb4573d676a8fce7b3a7c800870f59369e63ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 058/122] fix: Array.insert let in elements append refuses

---
 src/DLMS_SPODES/types/common_data_types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 25a4b62..d3e1a4a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1098,10 +1098,18 @@ class Array(__Array, ComplexDataType):
             case None:        element = self.new_element()
             case _:           element = self.TYPE(element)
             # case _:           raise ValueError(F'Types not equal. Must be {self.type.NAME} got {type(element).__name__}')
+        self.__validate_new(element)
+        self.values.append(element)
+
+    def insert(self, index: int, element: CommonDataType):
+        if isinstance(element, self.TYPE):
+            self.__validate_new(element)
+        super().insert(index, element)
+
+    def __validate_new(self, element: CommonDataType):
         if self.unique and element in self.values:  # TODO: remove after full implement append_validate (see below)
             raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
         self.append_validate(element)
-        self.values.append(element)
 
     def new_element(self) -> CommonDataType:
         """for override elements validator if it consist ID's. """
-- 
2.43.0


From aa2afb2e5c612608460ac585c8c3231b6564c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 059/122] fix: special day entry could not be set again with
 its own index

---
 .../cosem_interface_classes/special_days_table.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index aa72f74..1ee22b4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -25,11 +25,11 @@ class Entries(cdt.Array):
     def append_validate(self, element: SpecDayEntry):
         """validate and insert callback for validate change SpecDayEntry"""
         self.__check_index(element.index)
-        element.index.register_cb_preset(self.__check_index)
+        element.index.register_cb_preset(lambda value: self.__check_index(value, element.index))
 
-    def __check_index(self, value):
+    def __check_index(self, value, own: cdt.LongUnsigned = None):
         """validate day_id from DayProfile"""
-        if cdt.LongUnsigned(value) in (entry.index for entry in self.values):
+        if cdt.LongUnsigned(value) in (entry.index for entry in self.values if entry.index is not own):
             raise ValueError(F'{cdt.LongUnsigned(value)} already exist in {self}')
         else:
             """validate OK"""
-- 
2.43.0


From 043ace705b9810cef459f9727882509fdd77f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 060/122] fix: special days with not specified fields never
 came

---
 .../cosem_interface_classes/special_days_table.py     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index 1ee22b4..c748697 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -1,3 +1,4 @@
+import calendar
 import datetime
 from .__class_init__ import *
 
@@ -89,6 +90,14 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             raise ValueError(F'not found entry with index {self.delete} for remove')
 
+    @staticmethod
+    def __is_match(pattern: cst.OctetStringDate, value: datetime.date) -> bool:
+        """ compare with not specified fields """
+        year, month, day, weekday = int.from_bytes(pattern.contents[:2], "big"), *pattern.contents[2:5]
+        if day in (0xfe, 0xfd):  # last and 2nd last day of month
+            day = calendar.monthrange(value.year, value.month)[1] - (0xfe - day)
+        return year in (0xffff, value.year) and month in (0xff, value.month) and day in (0xff, value.day) and weekday in (0xff, value.isoweekday())
+
     def get_day_id_of_current_special_day(self, server_time: datetime.datetime = None) -> cdt.Unsigned | None:
         """ return day ID if special day if it in today else None """
         server_time = self.collection.current_time if server_time is None else server_time
@@ -97,7 +106,7 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             current_date: datetime.date = server_time.date()
             for spec_day_entry in self.entries:
-                if spec_day_entry.specialday_date.decode() == current_date:
+                if self.__is_match(spec_day_entry.specialday_date, current_date):
                     return spec_day_entry.day_id
             else:
                 return None
-- 
2.43.0


From 5750c7f605095df7c80056fea0e87284bb412be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 061/122] fix: index of appended schedule entry had no list of
 indexes to be checked with

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index 332d2fb..56f299e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -56,6 +56,10 @@ class Entries(cdt.Array):
             schedule_table_entry: ScheduleTableEntry
             schedule_table_entry.index.set_callback(self.get_indexes)
 
+    def append_validate(self, element: ScheduleTableEntry):
+        """callback for validate index of new element"""
+        element.index.set_callback(self.get_indexes)
+
     def get_indexes(self) -> list[int]:
         """ getter for callback Index """
         return [entries_element.index.decode() for entries_element in self]
-- 
2.43.0


From bdda6205ae813b2ead815d4cdeefca53cbd1d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 062/122] fix: access to a method with authentication couldn't
 be decided (TypeError)

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 9d1f6a3..f6b76de 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -494,7 +494,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             case pdu.MethodAccess.AUTHENTICATED_ACCESS:
                 if not m_id:
                     m_id = self.authentication_mechanism_name.mechanism_id_element
-                if m_id >= mechanism_id.LOW:
+                if int(m_id) >= int(mechanism_id.LOW):
                     return True
                 else:
                     return False
-- 
2.43.0


From 44c887e6dbb08d2a29a63df39ffc0a3cb54255c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 063/122] fix: list objects: classes allowed for group C were
 searched by group D

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4d94679..167e28b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -559,7 +559,7 @@ def get_type(class_id: CosemClassId,
                 c_m = func_map.get((ln.contents[:5]), None)
                 if not c_m:
                     # try search in C group
-                    c_m = func_map.get((ln.contents[:1]+ln.contents[3:4]), common_interface_class_map)
+                    c_m = func_map.get((ln.contents[:1]+ln.contents[2:3]), common_interface_class_map)
     return get_interface_class(class_map=c_m,
                                c_id=class_id,
                                ver=version)
-- 
2.43.0


From 8ba51424fd4b43a778d2af207e7e493719ec8813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 064/122] fix: GSM diagnostic of version 1 named itself version
 0

---
 src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
index b4b2ac4..cc1eff6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
@@ -27,6 +27,7 @@ class AdjacentCells(cdt.Array):
 
 
 class GSMDiagnostic(ver0.GSMDiagnostic):
+    VERSION = Version.V1
     A_ELEMENTS = (ver0.GSMDiagnostic.get_attr_element(2),
                   ver0.GSMDiagnostic.get_attr_element(3),
                   ver0.GSMDiagnostic.get_attr_element(4),
-- 
2.43.0


From b3e14cd17679557f4e64d0ce6992fe19814a9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 065/122] fix: electricity codes absent in the name tables
 raised ValueError (IndexError) in place of unknown name

---
 src/DLMS_SPODES/relation_to_OBIS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index beb3ab7..a826749 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -47,7 +47,7 @@ def get_obj_names(electric_obj: int) -> str:
         case 131: return F"{rn.POWER_REACTIVE_FACTOR} {rn.ALL_PHASE}"
         case 133: return F"{rn.VOLTAGE_ASYMMETRY_COEFFICIENT}"
         case 147: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.FOR} {rn.VOLTAGE}"
-        case _:   raise ValueError(F"getting electrical name by C group with unknown: C={electric_obj}")
+        case _:   return rn.UNKNOWN
 
 
 def get_harmonics_name(classification: int) -> str:
@@ -59,7 +59,7 @@ def get_harmonics_name(classification: int) -> str:
         case 126:                             return rn.ALL_HARMONICS
         case 127:                             return rn.ALL_HARMONICS_TO_NOMINAL_VALUE_RATIO
         case _ if 120 >= classification >= 1: return F"{rn.HARMONIC} {classification}"
-        case _: raise ValueError(F"for get harmonics unknown {classification=}")
+        case _:                               return rn.UNKNOWN
 
 
 def get_processing_names(d: int) -> str:
@@ -124,7 +124,7 @@ def get_processing_names(d: int) -> str:
         case 129: return rn.RU_NEGATIVE_DEVIATION
         case 133: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.BILLING_PERIOD}"
         case 134: return rn.RU_CHANGE_LIMIT_LEVEL
-        case _:  raise ValueError(F'Unknown Processing of measurement values {d}')
+        case _:  return rn.UNKNOWN
 
 
 def get_rate(value: int) -> str:
@@ -407,7 +407,7 @@ def get_name(logical_name: cst.LogicalName) -> str:
             return F"{handle_B(b)}{rn.REACTIVE_FACTOR} {get_processing_names(d)}"
         case  1, 0, 147 as c, 133, 0: return F"{get_obj_names(c)} {rn.BILLING_PERIOD}"
         case  1, 0, 148, 36, 0: return F"{rn.OVER_VOLTAGE_COUNTER} {rn.BILLING_PERIOD}"
-        case 1, b, 81, 7, e if e < 78:
+        case 1, b, 81, 7, e if e < 78 and e % 10 < 8:
             angel_values = (rn.U_L1, rn.U_L2, rn.U_L3, rn.ERROR, rn.I_L1, rn.I_L2, rn.I_L3, rn.I_L0)
             to_, from_ = divmod(logical_name.e, 10)
             return F"{F'{rn.ANGLE_FROM} {angel_values[from_]} {rn.TO} {angel_values[to_]}'}{handle_B(b)}"
-- 
2.43.0


From 57489dc421c55ef41f69095ce98830c8bb9d1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 066/122] fix: Collection.copy: read-only values were shared,
 setting one changed every copy

---
 src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 65abbce..c3f88d6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -168,6 +168,7 @@ class COSEMInterfaceClasses(ABC):
                 if source.collection is not None and self.get_attr_element(i).classifier == Classifier.STATIC and not source.collection.is_writable(ln=self.logical_name,
                                                                                                                                                     index=i,
                                                                                                                                                     association_id=association_id):
+                    value = value.copy()  # changes of one collection must not come to another
                     # Todo: may be callbacks inits remove?
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
-- 
2.43.0


From 0c61243580f3b15f9742d4523d68a41c79ae30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 067/122] fix: text of a unit with scaler prefix wasn't
 accepted back, scaler_unit was lost in templates

---
 src/DLMS_SPODES/types/common_data_types.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d3e1a4a..36f8490 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2290,6 +2290,15 @@ class Unit(Enum, elements=tuple(range(1, 256))):
                 else:
                     raise ValueError(F"unsupport scaler preset: {other} in Unit")
 
+    def from_str(self, value: str) -> bytes:
+        try:
+            return super(Unit, self).from_str(value)
+        except ValueError:
+            for contents, scaler in self.SCALERS.items():
+                if scaler != 0 and value == self.SCALER_NAME.get(scaler, "")+self.ELEMENTS[contents]:
+                    return contents
+            raise
+
     def get_scaler(self) -> int:
         return self.SCALERS[self.contents]
 
-- 
2.43.0


From 5fd7156a924aa7713d4c3a16ea2d62101c9a9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 068/122] fix: from_xml4: used attributes of an object divided
 between collections were lost

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 167e28b..ce34a64 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1992,7 +1992,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.warning(F"got object with {ln=} not find in collection: {col}")
                     else:
                         objs.append(col.get_object(logical_name))
-                used[logical_name] = set()
+                used.setdefault(logical_name, set())
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-- 
2.43.0


From c8635d9c0c6d37eba2cd12ee4b84e98ad1904bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 069/122] fix: Collection.copy: read-only array of a copy lost
 its element type and callbacks

---
 .../cosem_interface_classes/cosem_interface_class.py     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index c3f88d6..e715a2c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -168,7 +168,14 @@ class COSEMInterfaceClasses(ABC):
                 if source.collection is not None and self.get_attr_element(i).classifier == Classifier.STATIC and not source.collection.is_writable(ln=self.logical_name,
                                                                                                                                                     index=i,
                                                                                                                                                     association_id=association_id):
-                    value = value.copy()  # changes of one collection must not come to another
+                    # changes of one collection must not come to another
+                    if isinstance(arr := self.__attributes[i-1], cdt.Array):
+                        arr.set_type(value.TYPE)
+                        for item in value:
+                            arr.append(item.copy())
+                        value = arr
+                    else:
+                        value = value.copy()
                     # Todo: may be callbacks inits remove?
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
-- 
2.43.0


From 566297b61ad7eb22917fd9aeffa7491d1524d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 070/122] fix: set_image_for_update never ended with
 image_block_size 0

---
 src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
index 08765f1..1bb2e0d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
@@ -96,6 +96,8 @@ class ImageTransfer(ic.COSEMInterfaceClasses):
     def set_image_for_update(self, value: bytes, identifier: bytearray):
         """ set to image_for_update from bytes and set to first block if identifier is new """
         block_size: int = self.image_block_size.decode()
+        if block_size == 0:
+            raise ValueError(F"can't split the image: {self.get_attr_element(2)} is 0")
         self.clear_image()
         while len(value) != 0:
             self.__blocks_for_update.append(bytearray(value[:block_size]))
-- 
2.43.0


From 810b4aa454602a4fc7f9f4dac4d5b9c5f93ee603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 071/122] fix: set of a cleared attribute ran no callbacks: a
 register value had no unit

---
 .../cosem_interface_classes/cosem_interface_class.py        | 4 ----
 .../cosem_interface_classes/demand_register/ver0.py         | 6 ++++++
 src/DLMS_SPODES/cosem_interface_classes/register.py         | 3 +++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index e715a2c..98398ad 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -179,11 +179,9 @@ class COSEMInterfaceClasses(ABC):
                     # Todo: may be callbacks inits remove?
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
-                        self._cbs_attr_before_init.pop(i)
                     self.__attributes[i-1] = value
                     if cb_func := self._cbs_attr_post_init.get(i, None):
                         cb_func()
-                        self._cbs_attr_post_init.pop(i)
                 else:
                     if isinstance(arr := self.__attributes[i-1], cdt.Array):
                         arr.set_type(value.TYPE)
@@ -250,11 +248,9 @@ class COSEMInterfaceClasses(ABC):
             new_value = data_type(value)
             if cb_func := self._cbs_attr_before_init.get(index, None):
                 cb_func(new_value)
-                self._cbs_attr_before_init.pop(index)
             self.__attributes[index-1] = new_value
             if cb_func := self._cbs_attr_post_init.get(index, None):
                 cb_func()
-                self._cbs_attr_post_init.pop(index)
             else:
                 """without callback post init"""
         else:
diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index c484bb5..1770cfc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -78,10 +78,16 @@ class DemandRegister(ic.COSEMInterfaceClasses):
         match self.current_average_value:
             case cdt.Digital() | cdt.Float() if self.current_average_value.SCALER_UNIT is None:  self.current_average_value.SCALER_UNIT = self.scaler_unit
             case cdt.Digital() | cdt.Float() if self.current_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
+            case cdt.Digital() | cdt.Float() if getattr(self.current_average_value.__class__, "SCALER_UNIT", None) is None:  # set by the previous scaler_unit of this object
+                self.current_average_value.SCALER_UNIT = None
+                self.current_average_value.SCALER_UNIT = self.scaler_unit
             case cdt.Digital() | cdt.Float():                   raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.current_average_value.SCALER_UNIT}')
             case _:                                             """set only for digital"""
         match self.last_average_value:
             case cdt.Digital() | cdt.Float() if self.last_average_value.SCALER_UNIT is None:  self.last_average_value.SCALER_UNIT = self.scaler_unit
             case cdt.Digital() | cdt.Float() if self.last_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
+            case cdt.Digital() | cdt.Float() if getattr(self.last_average_value.__class__, "SCALER_UNIT", None) is None:  # set by the previous scaler_unit of this object
+                self.last_average_value.SCALER_UNIT = None
+                self.last_average_value.SCALER_UNIT = self.scaler_unit
             case cdt.Digital() | cdt.Float():                   raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.last_average_value.SCALER_UNIT}')
             case _:                                             """set only for digital"""
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index 1d78b4f..9394b7d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -50,6 +50,9 @@ class Register(ic.COSEMInterfaceClasses):
         match self.value:
             case cdt.Digital() | cdt.Float() if self.value.SCALER_UNIT is None:  self.value.SCALER_UNIT = self.scaler_unit
             case cdt.Digital() | cdt.Float() if self.value.SCALER_UNIT == self.scaler_unit: """ already set """
+            case cdt.Digital() | cdt.Float() if getattr(self.value.__class__, "SCALER_UNIT", None) is None:  # set by the previous scaler_unit of this object
+                self.value.SCALER_UNIT = None
+                self.value.SCALER_UNIT = self.scaler_unit
             case cdt.Digital() | cdt.Float():                                    raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.value.SCALER_UNIT}')
             case _:                                                              """set only for digital"""
 
-- 
2.43.0


From 8a247818ff1d798d89e38051ec23a3c884ce6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 072/122] fix: demand register values of different types were
 refused with AttributeError

---
 .../cosem_interface_classes/demand_register/ver0.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index 1770cfc..2c4a34e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -63,9 +63,10 @@ class DemandRegister(ic.COSEMInterfaceClasses):
         the value attribute of the “Data” interface class are allowed. """
         attr_value = self.get_attr(attr_index)
         if self.current_average_value is not None and self.last_average_value is not None and self.current_average_value.TAG != self.last_average_value.TAG:
+            other = self.current_average_value if attr_index == 3 else self.last_average_value
             self.clear_attr(attr_index)
             raise ValueError(F"got {self.get_attr_element(attr_index)} with: {attr_value=}, expected "
-                             F"{cdt.get_common_data_type_from(self.current_average_value.TAG if attr_index == 3 else self.last_average_value.TAG).NAME}")
+                             F"{other.TAG}")
         match attr_value:
             case cdt.Array() | cdt.CompactArray() | cdt.Structure(): self.set_attr(4, cdt.ScalUnitType(b'\x02\x02\x0f\x00\x16\xff'))
             case cdt.Digital() | cdt.Float():                        attr_value.SCALER_UNIT = self.scaler_unit
-- 
2.43.0


From bbbaf545beed0b8998839133a8e035458974fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 073/122] fix: an array with elements of CHOICE type
 (thresholds of register monitor) could not be filled

---
 src/DLMS_SPODES/types/common_data_types.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 36f8490..b28e99e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -283,12 +283,16 @@ class __Array(ABC):
     TYPE: Type[CommonDataType]
     values: list[CommonDataType]
 
+    def is_element(self, value: Any) -> bool:
+        """is the value an instance of TYPE, which may be CHOICE"""
+        return isinstance(value, self.TYPE.get_types() if hasattr(self.TYPE, "get_types") else self.TYPE)
+
     def remove(self, element: CommonDataType):
-        if isinstance(element, self.TYPE):
+        if self.is_element(element):
             self.values.remove(element)
 
     def insert(self, index: int, element: CommonDataType):
-        if isinstance(element, self.TYPE):
+        if self.is_element(element):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
@@ -1094,15 +1098,14 @@ class Array(__Array, ComplexDataType):
     def append(self, element: CommonDataType | None | Any = None):
         """ append element to end """
         match element:
-            case self.TYPE(): pass
-            case None:        element = self.new_element()
-            case _:           element = self.TYPE(element)
+            case None:                              element = self.new_element()
+            case _ if not self.is_element(element): element = self.TYPE(element)
             # case _:           raise ValueError(F'Types not equal. Must be {self.type.NAME} got {type(element).__name__}')
         self.__validate_new(element)
         self.values.append(element)
 
     def insert(self, index: int, element: CommonDataType):
-        if isinstance(element, self.TYPE):
+        if self.is_element(element):
             self.__validate_new(element)
         super().insert(index, element)
 
@@ -1150,7 +1153,7 @@ class Array(__Array, ComplexDataType):
             else:
                 """TYPE already initiated"""
             for el in new_array:
-                self.append(self.TYPE(el))
+                self.append(self.TYPE(el.encoding if hasattr(self.TYPE, "get_types") else el))
         except Exception:
             self.__dict__['TYPE'] = old_type
             self.values[:] = old_values
-- 
2.43.0


From 6926a1fff7a543ca4405b233b84961dae82358eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 074/122] fix: range selection of a profile sorted by a
 register could not be created

---
 .../profile_generic/ver1.py                        |  3 ++-
 src/DLMS_SPODES/types/useful_types.py              | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 73804bd..6e709a6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -201,7 +201,8 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
             # cb_preset = TODO: make check 'selected_values' from self.capture_objects or
             # cb_post_set = TODO: make check 'selected_values' from self.capture_objects
             DEFAULT = b'\x02\x04\x02\x04\x12\x00\x01\x09\x06\x00\x00\x01\x00\x00\xff\x0f\x02\x12\x00\x00\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff' \
-                      b'\x09\x0c\x07\xe4\x01\x02\xff\xff\xff\xff\xff\x80\x00\xff\x01\x00'
+                      b'\x09\x0c\x07\xe4\x01\x02\xff\xff\xff\xff\xff\x80\x00\xff\x01\x00' \
+                if isinstance(sort_obj, Clock) else (self.sort_object.encoding, None, None, None)
             restricting_object: structs.CaptureObjectDefinition
             from_value: value_type
             to_value: value_type
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 51cbde2..a9f0ed9 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -753,10 +753,10 @@ class SelectiveAccess(ABC):
 
     def __init__(self):
         self.access_selector = self.ELEMENTS[0].TYPE()
-        self.access_parameters = self.__get_default_parameters()
+        self.access_parameters = self.__get_default_parameters(self.access_selector)
 
-    def __get_default_parameters(self) -> cdt.CommonDataType:
-        return self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE()
+    def __get_default_parameters(self, selector: Unsigned8) -> cdt.CommonDataType:
+        return self.ELEMENTS[1].TYPE.ELEMENTS[int(selector)].TYPE()
 
     @property
     def contents(self) -> bytes:
@@ -764,10 +764,12 @@ class SelectiveAccess(ABC):
 
     def set_selector(self, index: int, value=None):
         """ set selector value from int type """
-        self.access_selector = self.ELEMENTS[0].TYPE(index)
-        self.access_parameters = self.__get_default_parameters()
+        selector = self.ELEMENTS[0].TYPE(index)
+        parameters = self.__get_default_parameters(selector)
         if value:
-            self.access_parameters.set(value)
+            parameters.set(value)
+        self.access_selector = selector
+        self.access_parameters = parameters
 
 
 ####
-- 
2.43.0


From 6afde0af57cd6a6da4533a32d87b6cb6ea8841c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 075/122] fix: default length of HDLC information field was
 2030 instead of 128

---
 .../cosem_interface_classes/iec_hdlc_setup/ver1.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index e16cf1c..a6683f5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -10,8 +10,8 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
     A_ELEMENTS = (ic.ICAElement("comm_speed", CommSpeed, 0, 9, 5),
                   ic.ICAElement("windows_size_transmit", cdt.Unsigned, 1, 7, 1),
                   ic.ICAElement("windows_size_receive", cdt.Unsigned, 1, 7, 1),
-                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 128, 32, 2030),
-                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 128, 32, 2030),
+                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 32, 2030, 128),
+                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 32, 2030, 128),
                   ic.ICAElement("inter_octet_time_out", cdt.LongUnsigned, 20, 6000, 25),
                   ic.ICAElement("inactivity_time_out", cdt.LongUnsigned, 0, default=120),
                   ic.ICAElement("device_address", cdt.LongUnsigned, 0x0001, 0x3ffd, default=0x10))  # TODO: not according by BlueBook: need default, minimum is other
-- 
2.43.0


From 5774b74631169d3bc72478c5189a84de9803e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 076/122] fix: certificate methods of security setup v1
 answered the method before

---
 .../security_setup/ver1.py                      | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
index 98cf732..508e97d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
@@ -140,17 +140,26 @@ class SecuritySetup(ver0.SecuritySetup):
     def key_transfer(self) -> KeyTransferData:
         return self .get_meth(2)
 
+    @property
     def key_agreement(self) -> KeyAgreement:
         return self .get_meth(3)
 
+    @property
+    def generate_key_pair(self) -> KeyPair:
+        return self.get_meth(4)
+
+    @property
     def generate_certificate_request(self) -> KeyPair:
-        return self .get_meth(4)
+        return self.get_meth(5)
 
+    @property
     def import_certificate(self) -> cdt.OctetString:
-        return self .get_meth(5)
+        return self.get_meth(6)
 
+    @property
     def export_certificate(self) -> CertificateIdentification:
-        return self .get_meth(6)
+        return self.get_meth(7)
 
+    @property
     def remove_certificate(self) -> CertificateIdentification:
-        return self .get_meth(7)
+        return self.get_meth(8)
-- 
2.43.0


From 5d6a7e602f273f04142c1d5a70df9fdb49dd466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 077/122] fix: method next_period was given to register instead
 of demand register

---
 .../cosem_interface_classes/demand_register/ver0.py           | 4 +++-
 src/DLMS_SPODES/cosem_interface_classes/register.py           | 4 +---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index 2c4a34e..7e4bfbf 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -15,7 +15,9 @@ class DemandRegister(ic.COSEMInterfaceClasses):
                   ic.ICAElement("start_time_current", cst.OctetStringDateTime, classifier=ic.Classifier.DYNAMIC),
                   ic.ICAElement("period", cdt.DoubleLongUnsigned, min=1),
                   ic.ICAElement("number_of_periods", cdt.LongUnsigned, min=1, default=1))
-    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
+    M_ELEMENTS = (
+        ic.ICMElement("reset", integers.Only0),
+        ic.ICMElement("next_period", integers.Only0))
     scaler_unit_not_settable: bool
 
     @property
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index 9394b7d..66cba19 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -12,9 +12,7 @@ class Register(ic.COSEMInterfaceClasses):
     scaler_unit_not_settable: bool
     A_ELEMENTS = (ic.ICAElement("value", choices.register, classifier=ic.Classifier.NOT_SPECIFIC),
                   ic.ICAElement("scaler_unit", cdt.ScalUnitType))
-    M_ELEMENTS = (
-        ic.ICMElement("reset", integers.Only0),
-        ic.ICMElement("next_period", integers.Only0))
+    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
 
     def characteristics_init(self):
         self._cbs_attr_post_init.update({2: self.__set_value_data_type,
-- 
2.43.0


From 110640994313616d4cc5dde82c85fecce4285133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 078/122] fix: times of preset_adjusting_time of clock are
 octet strings

---
 src/DLMS_SPODES/cosem_interface_classes/clock.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/clock.py b/src/DLMS_SPODES/cosem_interface_classes/clock.py
index b8da858..eefd0a2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/clock.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/clock.py
@@ -36,11 +36,11 @@ class ClockBase(cdt.Enum, elements=(0, 1, 2, 3, 4, 5)):
 
 class PresetAdjustingTime(cdt.Structure):
     """ Presets the time to a new value (preset_time) and defines a validity_interval within which the new time can be activated """
-    DEFAULT = b'\x02\x03\x19\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff' \
-              b'\x19\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff\x19\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'
-    preset_time: cdt.DateTime
-    validity_interval_start: cdt.DateTime
-    validity_interval_end: cdt.DateTime
+    DEFAULT = b'\x02\x03\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff' \
+              b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'
+    preset_time: cst.OctetStringDateTime
+    validity_interval_start: cst.OctetStringDateTime
+    validity_interval_end: cst.OctetStringDateTime
 
 
 class ShiftTime(cdt.Long, min=-900, max=900):
-- 
2.43.0


From b156e8ccda0c8b0057169b2387e7a5fc994dc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 079/122] fix: country of default application context name was
 116 instead of 756

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index f6b76de..f297385 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -118,7 +118,7 @@ class AssociatedPartnersType(cdt.Structure):
 class ApplicationContextName(cdt.Structure):
     """ In the COSEM environment, it is intended that an application context pre-exists and is referenced by its name during the establishment of an
     application association. This attribute contains the name of the application context for that association."""
-    DEFAULT = (2, 16, 116, 5, 8, 1, 1)
+    DEFAULT = (2, 16, 756, 5, 8, 1, 1)
     joint_iso_ctt_element: cdt.Unsigned
     country_element: cdt.Unsigned
     country_name_element: cdt.LongUnsigned
-- 
2.43.0


From 16ea3f0d8af6b9454aad0ea841a7448195b3884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 080/122] fix: length of object identifier of A-XDR was the
 number of its parts

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b28e99e..ea8c20d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1411,6 +1411,14 @@ class AXDR(ABC):
         else:
             return super(AXDR, self).contents
 
+    @property
+    def encoding(self) -> bytes:
+        if self.is_xdr:
+            contents = self.contents
+            return self.TAG + encode_length(len(contents)) + contents
+        else:
+            return super(AXDR, self).encoding
+
 
 class Boolean(SimpleDataType):
     """ boolean """
-- 
2.43.0


From 550cd961bb06fd46122388f6408fbdbd795b5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 081/122] fix: part of object identifier over 16383 lost its
 high bits

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ea8c20d..d838ebc 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1383,7 +1383,7 @@ class AXDR(ABC):
                             values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
-                                tmp = (tmp & 0b0111_1111) << 7
+                                tmp <<= 7
                                 if values_in[0] >= 0b1000_0000:
                                     tmp += values_in.popleft() & 0b0111_1111
                                 else:
-- 
2.43.0


From 42d26da63470f3264d82faa343beb49a0f766f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 082/122] fix: report of object stopped at the first empty
 element

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index e659574..0aec4f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -32,7 +32,7 @@ def get_obj_report(
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
                 value = next(value_it, None)
-                if value:
+                if value is not None:
                     if not isinstance(name, str):
                         name = next(name).NAME
                     if isinstance(value, cdt.Array):
-- 
2.43.0


From a11087bb3dcc6efd90c829c3f141f7bb8e3054b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 083/122] fix: flags over the eighth were missing in report of
 power quality

---
 src/DLMS_SPODES/cosem_interface_classes/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/events.py b/src/DLMS_SPODES/cosem_interface_classes/events.py
index 45f3498..97dcc29 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/events.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/events.py
@@ -9,7 +9,7 @@ match get_current_language():
 class FlagEvents(dict):
     """ special class for flag events indication """
     def get_report(self, value: int) -> str:
-        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(8)))))+F"({value})"
+        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(value.bit_length())))))+F"({value})"
 
 
 class Events(dict):
-- 
2.43.0


From 557fd8c67640c1e534a4bbf8335a7aedbdf8551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 084/122] fix: ports P2 to P4 were named P1 in English events

---
 src/DLMS_SPODES/Values/EN/events.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/Values/EN/events.py b/src/DLMS_SPODES/Values/EN/events.py
index 25db412..80afd0b 100644
--- a/src/DLMS_SPODES/Values/EN/events.py
+++ b/src/DLMS_SPODES/Values/EN/events.py
@@ -214,9 +214,9 @@ PROGRAMING_110 = "Changing the control mode of the alarm relay 3"
 PROGRAMING_111 = "Changing the control mode of the alarm relay 4"
 PROGRAMING_112 = "Change type of contact of the signaling relayChange type of contact of the signaling relay"
 PROGRAMING_113 = "Changing the timeout for TCP/UDP connection (optical port P1)"
-PROGRAMING_114 = "Changing the timeout for TCP/UDP connection (port P1)"
-PROGRAMING_115 = "Changing the timeout for TCP/UDP connection (port P1)"
-PROGRAMING_116 = "Changing the timeout for TCP/UDP connection (port P1)"
+PROGRAMING_114 = "Changing the timeout for TCP/UDP connection (port P2)"
+PROGRAMING_115 = "Changing the timeout for TCP/UDP connection (port P3)"
+PROGRAMING_116 = "Changing the timeout for TCP/UDP connection (port P4)"
 PROGRAMING_117 = "Cleaning the log 'Tangens output for the threshold at the integration interval'"
 PROGRAMING_118 = "Cleaning the log 'Correction of Time'"
 PROGRAMING_119 = "Cleaning the log 'At the beginning of the year'"
-- 
2.43.0


From 35b8c0bbb558c9b900d77d7381eafa7984bc7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 085/122] fix: decimal point of 0,4 Hz was missing in event
 text

---
 src/DLMS_SPODES/Values/RU/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/Values/RU/events.py b/src/DLMS_SPODES/Values/RU/events.py
index 051eb2d..81cd51e 100644
--- a/src/DLMS_SPODES/Values/RU/events.py
+++ b/src/DLMS_SPODES/Values/RU/events.py
@@ -298,7 +298,7 @@ REACTIVE_POWER_2 = "Превышение установленного порог
 
 # for 0.0.96.5.1.255 Статус качества сети профиль суточных показаний
 POWER_QUALITY1_1 = "Отклонение напряжения более чем на 10% от номинала"
-POWER_QUALITY1_2 = "Отклонение частоты более чем на 04 Гц от номинала"
+POWER_QUALITY1_2 = "Отклонение частоты более чем на 0,4 Гц от номинала"
 
 # for POWER_QUALITY1_0 =.0.96.5.4.255 Статус качества сети журнал качества сети
 POWER_QUALITY2_1 = "Снижение напряжения более чем на 10%"
-- 
2.43.0


From 5a9d5b383ef5c21b656b5e901c73d5e128b29165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 086/122] fix: names of configuration dates and operating
 statuses were missing in English

---
 .../Values/EN/relation_to_obis_names.py         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
index 73169fb..fb541f1 100644
--- a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
+++ b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
@@ -68,6 +68,23 @@ RU_ALARM_MONITOR_1 = "RU. Load alarm monitor"
 GENERAL_DISPLAY_READOUT = "General display readout"
 ALTERNATE_DISPLAY_READOUT = "Alternate display readout"
 # 6.2.44 Parameter changes and calibration objects
+NUMBER_OF_CONFIGURATION_PROGRAM_CHANGES = "Number of configuration program changes"
+DATE_A_OF_LAST_CONFIGURATION_PROGRAM_CHANGE = "Date of last configuration program change"
+DATE_A_OF_LAST_TIME_SWITCH_PROGRAM_CHANGE = "Date of last time switch program change"
+DATE_A_OF_LAST_RIPPLE_CONTROL_RECEIVER_PROGRAM_CHANGE = "Date of last ripple control receiver program change"
+STATUS_OF_SECURITY_SWITCHES = "Status of security switches"
+DATE_A_OF_LAST_CALIBRATION = "Date of last calibration"
+DATE_A_OF_NEXT_CONFIGURATION_PROGRAM_CHANGE = "Date of next configuration program change"
+DATE_A_OF_ACTIVATION_OF_THE_PASSIVE_CALENDAR = "Date of activation of the passive calendar"
+NUMBER_OF_PROTECTED_CONFIGURATION_PROGRAM_CHANGES = "Number of protected configuration program changes"
+DATE_A_OF_LAST_PROTECTED_CONFIGURATION_PROGRAM_CHANGE = "Date of last protected configuration program change"
+DATE_A_CORRECTED_OF_LAST_CLOCK_SYNCHRONIZATION_SETTING = "Date of last clock synchronization/setting"
+DATE_OF_LAST_FIRMWARE_ACTIVATION = "Date of last firmware activation"
+INTERNAL_OPERATING_STATUS_GLOBAL = "Internal operating status, global"
+INTERNAL_OPERATING_STATUS_1 = "Power quality status (daily profile)"
+INTERNAL_OPERATING_STATUS_2 = "Power control status word"
+INTERNAL_OPERATING_STATUS_3 = "Internal operating status 3"
+INTERNAL_OPERATING_STATUS_4 = "Power quality status (quality log)"
 PARAMETER_CHANGES_AND_CALIBRATION_0 = "RU. Correction counter(Configuring)"
 # 6.2.48 Status of internal control signals objects
 RU_LCD_BACKLIGHT_MODE = "Lcd backlight mode"
-- 
2.43.0


From aa448e9827b45e52b2ebec6880ca66f833cf5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 087/122] fix: attribute or method of index 0 was taken for the
 last but one or the last

---
 .../cosem_interface_classes/cosem_interface_class.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 98398ad..16c89f7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -198,11 +198,14 @@ class COSEMInterfaceClasses(ABC):
         """return element by order index. Override in each new class"""
         match i:
             case 1: return _LN_ELEMENT
-            case _: return cls.A_ELEMENTS[i - 2]
+            case _ if i > 1: return cls.A_ELEMENTS[i - 2]
+            case _: raise IndexError(F"for {cls.__name__} got attribute index: {i}, expected 1..{len(cls.A_ELEMENTS) + 1}")
 
     @classmethod
     def get_meth_element(cls, i: int) -> ICElement:
         """ implement in subclasses with methods """
+        if i < 1:
+            raise IndexError(F"for {cls.__name__} got method index: {i}, expected 1..{len(cls.M_ELEMENTS)}")
         return cls.M_ELEMENTS[i - 1]
 
     @abstractmethod
-- 
2.43.0


From 0eba99f23e61fe91ce3eb0ac4b8161b2d8e75108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 088/122] fix: record time of logical name was that of the last
 attribute

---
 .../cosem_interface_classes/cosem_interface_class.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 16c89f7..303a061 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -143,7 +143,7 @@ class COSEMInterfaceClasses(ABC):
         self._cbs_attr_before_init = dict()
         """container with callbacks for before initial attribute by index"""
 
-        self.__record_time = [None] * len(self.A_ELEMENTS)
+        self.__record_time = [None] * (len(self.A_ELEMENTS) + 1)
 
         # init all attributes with default value
         for i in range(2, len(self.A_ELEMENTS)+2):
@@ -288,10 +288,10 @@ class COSEMInterfaceClasses(ABC):
             raise IndexError(F'not support {index=} as attribute')
 
     def get_record_time(self, index: int) -> cdt.DateTime | None:
-        return self.__record_time[index-2]
+        return self.__record_time[index-1]
 
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
-        self.__record_time[index-2] = cdt.DateTime(value)
+        self.__record_time[index-1] = cdt.DateTime(value)
 
     def get_index_with_attributes(self) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
         """ if by initiation order is True then need override method for concrete class"""
-- 
2.43.0


From e4b62e505d454b0662d6a4e49783626679801f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 089/122] fix: name of the reference voltage for power quality
 tells its channel

---
 src/DLMS_SPODES/relation_to_OBIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index a826749..0779ae5 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -374,7 +374,7 @@ def get_name(logical_name: cst.LogicalName) -> str:
         case  1, b, 0, 6, 1:    return F"{rn.NOMINAL_CURRENT}{handle_B(b)}"
         case  1, b, 0, 6, 2:    return F"{rn.NOMINAL_FREQUENCY}{handle_B(b)}"
         case  1, b, 0, 6, 3:    return F"{rn.MAXIMUM_CURRENT}{handle_B(b)}"
-        case  1, b, 0, 6, 4:    return rn.REFERENCE_VOLTAGE_FOR_POWER_QUALITY_MEASUREMENT
+        case  1, b, 0, 6, 4:    return F"{rn.REFERENCE_VOLTAGE_FOR_POWER_QUALITY_MEASUREMENT}{handle_B(b)}"
         case  1, b, 0, 6, 5:    return F"{rn.REFERENCED_VOLTAGE_FOR_AUX_POWER_SUPPLY}{handle_B(b)}"
         case  1, b, 0, 8, 4:    return F"{rn.RECORDING_INTERVAL_1_FOR_LOAD_PROFILE}{handle_B(b)}"
         case  1, b, 0, 8, 5:    return F"{rn.RECORDING_INTERVAL_2_FOR_LOAD_PROFILE}{handle_B(b)}"
-- 
2.43.0


From bf4b9ee8af270d860fdf5d8fa236fe37e86d87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 090/122] fix: octet without a character was not replaced with
 '?' in the text of a string

---
 src/DLMS_SPODES/types/common_data_types.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d838ebc..319107a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1607,6 +1607,11 @@ class DoubleLongUnsigned(Digital, SimpleDataType):
     LENGTH = 4
 
 
+def _decode_text(value: bytes, encoding: str) -> str:
+    """ text of octets, unsupported ones are replaced to '?' """
+    return value.decode(encoding, errors="replace").replace("\ufffd", "?")
+
+
 class OctetString(_String, SimpleDataType):
     """ An ordered sequence of octets (8 bit bytes) """
     TAG = TAG(b'\x09')
@@ -1655,7 +1660,7 @@ class OctetString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i > 32 else 63)
-        return bytes(temp).decode(encoding)
+        return _decode_text(bytes(temp), encoding)
 
     def __bytes__(self):
         return self.contents
@@ -1672,7 +1677,7 @@ class VisibleString(_String, SimpleDataType):
         return bytes(str(value), 'cp1251')
 
     def __str__(self):
-        return bytes([char if char >= 0x20 else 63 for char in self.contents]).decode(encoding='cp1251')
+        return _decode_text(bytes([char if char >= 0x20 else 63 for char in self.contents]), "cp1251")
 
     def __len__(self):
         return len(self.contents)
@@ -1682,7 +1687,7 @@ class VisibleString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i >= 32 else 63)
-        return bytes(temp).decode(encoding)
+        return _decode_text(bytes(temp), encoding)
 
     def to_str(self) -> str:
         return self.decode()
-- 
2.43.0


From 7b3b51588e7c0b860d3b51d20f873bb249bb9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 091/122] fix: names of context and mechanism made of a
 sequence had no elements

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 319107a..b642ac7 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1403,6 +1403,9 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = False
                         super(AXDR, self).__init__(value)
             case None:                                              self.__init__(self.DEFAULT)
+            case _:
+                self.__dict__['is_xdr'] = False
+                super(AXDR, self).__init__(value)
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 62a22378e5f695f5fa37070fe884181e281d2177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:06 +0000
Subject: [PATCH 092/122] fix: low level secret was limited to 16 octets after
 the high level one

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index f297385..f6e4a9a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -361,6 +361,9 @@ class AssociationLN(ic.COSEMInterfaceClasses):
     def __init_secret(self):
         """ before initiating secret need knowledge what kind of mechanism ID """
         match self.authentication_mechanism_name.mechanism_id_element, self.LLS_secret:
+            case mechanism_id.NONE | mechanism_id.LOW, LLCSecretHigh():
+                # keep secret value without limit of length
+                self.set_attr_link(7, LLCSecret(bytearray(self.LLS_secret.contents)))
             case mechanism_id.NONE | mechanism_id.LOW, LLCSecret(): """keep secret value"""
             case mechanism_id.NONE | mechanism_id.LOW, _:           self.set_attr_link(7, LLCSecret())
             case mechanism_id.HIGH, LLCSecretHigh():                          """keep secret value"""
-- 
2.43.0


From 1ba0f46b7799cee81b692d62f3f8d799482ad2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:00 +0000
Subject: [PATCH 093/122] fix: association of a client was not found beside one
 with unknown partners

---
 .../cosem_interface_classes/association_ln/ver0.py            | 2 +-
 src/DLMS_SPODES/cosem_interface_classes/collection.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index f6e4a9a..c22b5a4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -384,7 +384,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
     def client_objects_list(self, value: enums.ClientSAP) -> list[ic.COSEMInterfaceClasses]:
         """rudiment. use collection.get_object_list. TODO: remove in future"""
         for association in self.collection.get_objects_by_class_id(ut.CosemClassId(15)):
-            if association.associated_partners_id.client_SAP == value and association.logical_name.e != 0:
+            if association.associated_partners_id is not None and association.associated_partners_id.client_SAP == value and association.logical_name.e != 0:
                 match association.object_list:
                     case ObjectListType():
                         ret = list()
diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index ce34a64..8dee7b0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1428,7 +1428,7 @@ class Collection:
 
     def get_objects_list(self, value: enums.ClientSAP) -> list[ic.COSEMInterfaceClasses]:
         for association in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
-            if association.associated_partners_id.client_SAP == value and association.logical_name.e != 0:
+            if association.associated_partners_id is not None and association.associated_partners_id.client_SAP == value and association.logical_name.e != 0:
                 if association.object_list is None:
                     raise exc.EmptyObj(F'{association} attr: 2')
                 else:
@@ -1689,7 +1689,7 @@ class Collection:
     def get_association_id(self, client_sap: enums.ClientSAP) -> int:
         """return id(association instance) from it client address without current"""
         for ass in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
-            if ass.associated_partners_id.client_SAP == client_sap and ass.logical_name.e != 0:
+            if ass.associated_partners_id is not None and ass.associated_partners_id.client_SAP == client_sap and ass.logical_name.e != 0:
                 return ass.logical_name.e
             else:
                 continue
-- 
2.43.0


From 5e6c7eceb8913126b65d69863a43fa609c813651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:59 +0000
Subject: [PATCH 094/122] fix: text of a float could not be validated

---
 src/DLMS_SPODES/types/common_data_types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b642ac7..2c9dee8 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -635,9 +635,8 @@ class Float(ABC):
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-        if value[-1] in '.-+exp':
-            value += '0'
-        return SimpleDataType(self).validate_from(value, cursor_position)
+        super(Float, self).validate_from(F"{value}0" if value and value[-1] in '.-+exp' else value, cursor_position)
+        return value, cursor_position
 
     def __str__(self):
         return str(self.decode())
-- 
2.43.0


From 5cc4c4da268a3f36eb913c4355fa7a4c24b56d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 095/122] fix: date with a leading zero could not be typed,
 empty one raised IndexError

---
 src/DLMS_SPODES/types/common_data_types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 2c9dee8..109d13a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -705,13 +705,18 @@ class __DateTime(ABC):
     def validate_from(self, value: str, cursor_position: int) -> tuple[str, int]:
         while len(value) > cursor_position and value[cursor_position] == '_':
             value = value[:cursor_position] + value[cursor_position+1:]
-        while value[cursor_position-2] == '_':
+        while cursor_position >= 2 and value[cursor_position-2] == '_':
             value = value[:cursor_position-2] + value[cursor_position-1:]
             cursor_position -= 1
         try:
             type(self)(value)
             return value, cursor_position
         except ValueError as e:
+            try:
+                type(self)(F'{value[:cursor_position]}1{value[cursor_position:]}')  # leading zero or sign
+                return value, cursor_position
+            except ValueError:
+                """try with separator"""
             try:
                 with_separator = F'{value[:cursor_position-1]}{self._separators[self.separator_amount(value[:cursor_position])]}{value[cursor_position-1:]}'
                 type(self)(with_separator)  # check possible
-- 
2.43.0


From 1747b7b1aca2ac56de23ab4bdd18a93f3db27e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:10 +0000
Subject: [PATCH 096/122] fix: cursor stayed before the last character after a
 separator of a logical name

---
 src/DLMS_SPODES/types/cosem_service_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index e11c2d1..239feb3 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -53,7 +53,7 @@ class LogicalName(cdt.OctetString, size=6):
         except ValueError:
             with_separator = F'{value[:-1]}.{value[-1]}'
             type(self)(with_separator)  # check possible
-            return with_separator, cursor_position
+            return with_separator, (cursor_position + 1 if cursor_position == len(value) else cursor_position)
 
     def __hash__(self):
         return int.from_bytes(self.contents, 'big')
-- 
2.43.0


From 19659ee17836a6ed550744d1884bfaf4ed7780de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 097/122] fix: skip an entry of a foreign type alone when
 values are read from a file

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 8dee7b0..1b3b7f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -799,7 +799,7 @@ class Collection:
                             logger.error(F'Object "{new_object}" not has attr: {index}')
                         except TypeError as e:
                             logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                        except ValueError as e:
+                        except (ValueError, ut.UserfulTypesException) as e:
                             logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
                         except AttributeError as e:
                             logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
@@ -1058,7 +1058,7 @@ class Collection:
                                 logger.error(F'Object "{new_object}" not has attr: {index}')
                             except TypeError as e:
                                 logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                            except ValueError as e:
+                            except (ValueError, ut.UserfulTypesException) as e:
                                 logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
                             except AttributeError as e:
                                 logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
@@ -1093,7 +1093,7 @@ class Collection:
                             logger.error(F'Object "{new_object}" not has attr: {index}')
                         except TypeError as e:
                             logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                        except ValueError as e:
+                        except (ValueError, ut.UserfulTypesException) as e:
                             logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
                         except AttributeError as e:
                             logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
@@ -1118,7 +1118,7 @@ class Collection:
                                 logger.error(F'Object "{new_object}" not has attr: {index}')
                             except TypeError as e:
                                 logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                            except ValueError as e:
+                            except (ValueError, ut.UserfulTypesException) as e:
                                 logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
                             except AttributeError as e:
                                 logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
@@ -2021,7 +2021,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.error(F'Object "{new_object}" not has attr: {index}')
                     except TypeError as e:
                         logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                    except ValueError as e:
+                    except (ValueError, ut.UserfulTypesException) as e:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
                     except AttributeError as e:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
-- 
2.43.0


From 1b2b31ff4ef62e65ff51b4ed287e99514df8ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:08 +0000
Subject: [PATCH 098/122] fix: texts of the services of a script were shifted
 by one

---
 src/DLMS_SPODES/config.toml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/config.toml b/src/DLMS_SPODES/config.toml
index 79dcfe5..346af01 100644
--- a/src/DLMS_SPODES/config.toml
+++ b/src/DLMS_SPODES/config.toml
@@ -1492,8 +1492,8 @@ CertificateIdentificationType = [
     {e=1, v="Идентификация сертификата по серийному номеру"},
 ]
 ServiceId = [
-    {e=0, v="Запись в атрибут"},
-    {e=1, v="Выполнить конкретный метод"},
+    {e=1, v="Запись в атрибут"},
+    {e=2, v="Выполнить конкретный метод"},
 ]
 TYPE = [
     {e=1, v="Размер времени выполнения = 1; Подстановочный знак в дате разрешен"},
-- 
2.43.0


From 883419e3c73db72e405efe22c4643ed5784b728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 099/122] fix: texts of three groups of electricity named the
 opposite quantity

---
 src/DLMS_SPODES/config.toml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/config.toml b/src/DLMS_SPODES/config.toml
index 346af01..c1d5e87 100644
--- a/src/DLMS_SPODES/config.toml
+++ b/src/DLMS_SPODES/config.toml
@@ -248,8 +248,8 @@ AllCurrent = "Суммарный ток всех фаз"
 AllPowerFactor = "Фактор мощности по всем фазам"
 AmpereSquaredHours = "Удельные потери в ЛЭП"
 Angels = "Угловые измерения"
-ApparentPowerMinus = "Положительная полная мощность (QI+QIV)"
-ApparentPowerPlus = "Отрицательная полная мощность (QII+QIII)"
+ApparentPowerMinus = "Отрицательная полная мощность (QII+QIII)"
+ApparentPowerPlus = "Положительная полная мощность (QI+QIV)"
 BillingPeriodValuesResetCounterEntriesEl = "Значения счетного периода"
 ConsortiaSpecificIdentifiers = "Специфические идентификаторы Консорциума"
 CountrySpecificIdentifiers = "Специфические идентификаторы страны"
@@ -277,7 +277,7 @@ OtherElectricityRelatedGeneralPurposeObjects = ""
 PowerFactor = "Фактор мощности"
 ReactivePowerCapacitive = "Емкостная Реактивная мощность QII+QIV"
 ReactivePowerInductive = "Индуктивная Реактивная мощность QI+QIII"
-ReactivePowerMinus = "Отрицательная активная мощность (QII+QIII)"
+ReactivePowerMinus = "Отрицательная реактивная мощность (QIII+QIV)"
 ReactivePowerPlus = "Положительная реактивная мощность (QI+QII)"
 ReactivePowerQi = "Реактивная мощность QI"
 ReactivePowerQii = "Реактивная мощность QII"
-- 
2.43.0


From 2b61aefba4168558171beefa8e59242a992491c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 100/122] fix: text of the unit coulomb

---
 src/DLMS_SPODES/config.toml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/config.toml b/src/DLMS_SPODES/config.toml
index c1d5e87..7e76fd8 100644
--- a/src/DLMS_SPODES/config.toml
+++ b/src/DLMS_SPODES/config.toml
@@ -1034,7 +1034,7 @@ Unit = [
     {e=31, v="В*А*ч", scaler=3},
     {e=32, v="ВАР*ч", scaler=3},
     {e=33, v="А"},
-    {e=34, v="к"},
+    {e=34, v="Кл"},
     {e=35, v="В"},
     {e=36, v="В/м"},
     {e=37, v="ф"},
-- 
2.43.0


From 1499366efa3c7deefc1927ad4fc770da3220f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 101/122] fix: elements of an enumeration derived from another
 one were ignored

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 109d13a..009354a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1898,7 +1898,7 @@ class Enum(SimpleDataType, ABC):
 
     def __init_subclass__(cls, **kwargs):
         """initiate ELEMENTS name use config.toml"""
-        if not cls.ELEMENTS:
+        if not cls.ELEMENTS or "elements" in kwargs:
             elements: tuple[int, ...] = kwargs["elements"]
             try:
                 c = {par["e"]: par["v"] for par in config["DLMS"][cls.__name__]}
-- 
2.43.0


From 525cf0f766185cc45ce40041e3bf3cff890deda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 102/122] fix: sort object of another class raised NameError
 instead of NoObject

---
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 6e709a6..6a8c3d1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -195,7 +195,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if sort_obj.CLASS_ID.contents == self.sort_object.class_id.contents:
             value_type: Type[cdt.CommonDataType] = sort_obj.get_attr_data_type(int(self.sort_object.attribute_index))
         else:
-            exc.NoObject(F"got {self.sort_object.class_id=}, expected {sort_obj.CLASS_ID=} from collection")
+            raise exc.NoObject(F"got {self.sort_object.class_id=}, expected {sort_obj.CLASS_ID=} from collection")
 
         class RangeDescriptor(cdt.Structure):
             # cb_preset = TODO: make check 'selected_values' from self.capture_objects or
-- 
2.43.0


From 7ec27cd2f336c03bee4a6e7ed0bab36e667b0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 103/122] fix: the row of the object of phase rotation
 0.0.96.5.132 was never found

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1b3b7f2..d850805 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -487,7 +487,7 @@ __func_map_for_create.update({
     (0, 96, 3, 20): ClassMap({0: impl.arbitrator.SPODES3Arbitrator}),
     (0, 96, 5, 1): ClassMap({0: impl.data.SPODES3PowerQuality1Event}),
     (0, 96, 5, 4): ClassMap({0: impl.data.SPODES3PowerQuality2Event}),
-    (0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
+    (0, 0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
     (0, 96, 11, 0): ClassMap({0: impl.data.SPODES3VoltageEvent}),
     (0, 96, 11, 1): ClassMap({0: impl.data.SPODES3CurrentEvent}),
     (0, 96, 11, 2): ClassMap({0: impl.data.SPODES3CommutationEvent}),
-- 
2.43.0


From 967bece4e812e638b20f73adb7e1dfa7d41e6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 104/122] fix: the last three conformance bits had values of
 other bits

---
 src/DLMS_SPODES/enums.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/enums.py b/src/DLMS_SPODES/enums.py
index 45b9018..5f09368 100644
--- a/src/DLMS_SPODES/enums.py
+++ b/src/DLMS_SPODES/enums.py
@@ -247,9 +247,9 @@ class Conformance(IntFlag):
     PARAMETERIZED_ACCESS = 0b100_0000_0000_0000_0000
     GET = 0b1000_0000_0000_0000_0000
     SET = 0b1_0000_0000_0000_0000_0000
-    SELECTIVE_ACCESS = 0b10_0000_0000_0000_0000
-    EVENT_NOTIFICATION = 0b100_0000_0000_0000_0000
-    ACTION = 0b1000_0000_0000_0000_0000
+    SELECTIVE_ACCESS = 0b10_0000_0000_0000_0000_0000
+    EVENT_NOTIFICATION = 0b100_0000_0000_0000_0000_0000
+    ACTION = 0b1000_0000_0000_0000_0000_0000
 
     @cached_property
     def content(self) -> bytes:
-- 
2.43.0


From 212fa88f8f0a28a044cc93a150f047b1250c1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 105/122] fix: indexes of a schedule's methods did not know its
 entries

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index 56f299e..e93b811 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -144,8 +144,8 @@ class Schedule(ic.COSEMInterfaceClasses):
                   ic.ICMElement("delete", DataDelete))
 
     def characteristics_init(self):
-        self.set_attr(2, None)
         self._cbs_attr_post_init.update({2: self.__set_index_cbs})
+        self.set_attr(2, None)
 
     @property
     def entries(self) -> Entries:
-- 
2.43.0


From f593ae7a1ddc4ec31363805a0c376d246498e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 106/122] fix: the nearest moment ignored that the point is of
 another time zone

---
 src/DLMS_SPODES/types/common_data_types.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 009354a..4f25b9e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2129,9 +2129,13 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
 
     def get_left_nearest_date(self, point: datetime.datetime) -> datetime.datetime | None:
-        """ search and return date(datetime format) in left from point """
+        """ search and return date(datetime format) in left from point. Not specified deviation is local time of the point """
         l_point: datetime.datetime = self.decode()
         """ time in left from point """
+        if self.contents[9:11] == b'\x80\x00':
+            l_point = l_point.replace(tzinfo=point.tzinfo)
+        else:
+            point = point.astimezone(l_point.tzinfo)
         months = range(12, 0, -1) if self.month is None else (self.month,)
         """ months sequence from 12 to 1 or self month """
         days = range(31, 0, -1) if self.day is None else (self.day,)
@@ -2157,6 +2161,8 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ time in left from point """
         if l_point is None:
             return None
+        if l_point.tzinfo is not None:
+            point = point.astimezone(l_point.tzinfo)
         is_this_day: bool = l_point.date() == point.date()
         """ flag of points equaling """
         for hour in range(point.hour if is_this_day else 23, -1, -1) if self.hour is None else (self.hour,):
-- 
2.43.0


From 84f462c7d7ddf645fbef50ac4ae865f73b4cfe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 107/122] fix: equal numbers had different hashes when one of
 them had a scaler

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 4f25b9e..0dee944 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -569,7 +569,7 @@ class Digital(ABC):
         return value, cursor_position
 
     def __hash__(self):
-        return hash(self.decode())
+        return hash(self.encoding)
 
 
 class Float(ABC):
-- 
2.43.0


From 0888981e98e0c6341e7f48bec9111c6507cdfc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 108/122] fix: booleans, BCDs and enumerations took contents of
 another size

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0dee944..59b03f1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1435,6 +1435,7 @@ class Boolean(SimpleDataType):
         match value:
             case None:                                                       self.clear()
             case bytes():                                                    self.contents = self.from_bytes(value)
+            case bytearray() if len(value) != 1:                             raise ValueError(F"Length of contents for {self.TAG} must be 1, but got {len(value)}")
             case bytearray():                                                self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
@@ -1731,6 +1732,7 @@ class Bcd(SimpleDataType):
         match value:  # TODO: replace priority case
             case None:                                                       self.contents = bytes(self.contents_length)
             case bytes():                                                    self.contents = self.from_bytes(value)
+            case bytearray() if len(value) != self.contents_length:          raise ValueError(F"Length of contents for {self.TAG} must be {self.contents_length}, but got {len(value)}")
             case bytearray():                                                self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
@@ -1858,6 +1860,7 @@ class Enum(SimpleDataType, ABC):
                     case self.TAG if len(encoding) >= 2:                  self.contents = encoding[1:2]
                     case self.TAG:                                        raise ValueError(F'Length of contents for {self.__class__.__name__} must be at least 1, but got {len(encoding[1:])}')
                     case _ as wrong_tag:                                  call_wrong_tag_in_value(wrong_tag, self.TAG)
+            case bytearray() if len(value) != 1:                          raise ValueError(F"Length of contents for {self.TAG} must be 1, but got {len(value)}")
             case bytearray():                                             self.contents = bytes(value)
             case None:                                                    self.contents = self.from_none()
             case str():                                                   self.contents = self.from_str(value)
-- 
2.43.0


From 2343165adafc1916930e2015d7f93e0fd1d66985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:37 +0000
Subject: [PATCH 109/122] fix: equal strings, nulls and sequences of a PDU
 compared unequal

---
 src/DLMS_SPODES/types/cosem_pdu.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 597c962..6a6a133 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -173,6 +173,12 @@ class Simple(UT, ABC):
     def __bytes__(self):
         return bytes(self.contents)
 
+    def __eq__(self, other):
+        return isinstance(other, self.__class__) and self.contents == other.contents
+
+    def __hash__(self):
+        return hash(bytes(self.contents))
+
     def __getitem__(self, item):
         return self.contents[item]
 
@@ -501,6 +507,9 @@ class Sequence(UT):
     def __bytes__(self):
         raise ValueError("not impl")
 
+    def __eq__(self, other):
+        return isinstance(other, self.__class__) and self.values == other.values
+
     def __getitem__(self, item):
         return self.values[item]
 
@@ -548,6 +557,9 @@ class _Optional(UT):
     def __len__(self):
         return len(self.value) + 1
 
+    def __eq__(self, other):
+        return isinstance(other, self.__class__) and self.value == other.value
+
     def __getitem__(self, item):
         raise ValueError("not impl")
 
@@ -678,6 +690,9 @@ class _SequenceOf(UT):
     def __len__(self):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
+    def __eq__(self, other):
+        return isinstance(other, self.__class__) and self.values == other.values
+
     def __getitem__(self, item):
         return self.values[item]
 
-- 
2.43.0


From 63385a0b2bb7d6544da874bc5ff2e48d6a69f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:52 +0000
Subject: [PATCH 110/122] fix: copy of a collection for a logical device name
 lost the name

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d850805..048881f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -637,6 +637,8 @@ class Collection:
                 if failures > len(obj_for_set):  # nobody was set in the whole round
                     logger.error(F"can't copy {', '.join(map(str, obj_for_set))}. {e}")
                     break
+        if ldn:  # the object was replaced by the copy of own
+            new_collection.LDN.set_attr(2, ldn)
         return new_collection
 
     @property
-- 
2.43.0


From c2e57bc45c3f90b5e60665a405bde1c25b414fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:57 +0000
Subject: [PATCH 111/122] fix: copied thresholds of a limiter lost the unit
 where an association may not write them

---
 src/DLMS_SPODES/cosem_interface_classes/limiter.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/limiter.py b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
index 017835b..b0b3aaf 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/limiter.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
@@ -56,7 +56,11 @@ class Limiter(ic.COSEMInterfaceClasses):
     def characteristics_init(self):
         self.set_attr(6, None)
         self.set_attr(7, None)
-        self._cbs_attr_post_init.update({2: self.__set_threshold_scaler_unit})
+        self._cbs_attr_post_init.update({
+            2: self.__set_threshold_scaler_unit,
+            3: lambda: self.__link_threshold_scaler_unit(3),
+            4: lambda: self.__link_threshold_scaler_unit(4),
+            5: lambda: self.__link_threshold_scaler_unit(5)})
         self._cbs_attr_before_init.update({
             3: lambda value: self.__validate_threshold_scaler_unit(3, value),
             4: lambda value: self.__validate_threshold_scaler_unit(4, value),
@@ -124,6 +128,14 @@ class Limiter(ic.COSEMInterfaceClasses):
         else:
             raise exc.EmptyObj(F"don't set attributes: 3, 4, 5 because {self} monitored_value is empty")
 
+    def __link_threshold_scaler_unit(self, index: int):
+        """threshold is in the unit of monitored value"""
+        if (
+            self.monitored_value.class_id in (long_unsigneds.ClassIDCDT.REGISTER, long_unsigneds.ClassIDCDT.EXT_REGISTER)
+            and (m_o := self.collection.get_object2(self.monitored_value)) is not None
+        ):
+            self.get_attr(index).SCALER_UNIT = m_o.scaler_unit
+
     def __validate_threshold_scaler_unit(self, index: int, value: cdt.CommonDataTypes):
         if self.monitored_value is not None:
             """let setup"""
-- 
2.43.0


From cbe385576ced0008910f5dba2b73a4af4b556c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 112/122] fix: thresholds of a limiter listed before the
 monitored object were copied without the unit

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 048881f..f9e41e0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -621,7 +621,9 @@ class Collection:
             if obj.CLASS_ID == classID.ASSOCIATION_LN:
                 if obj.object_list is not None and (max_ass is None or len(max_ass.object_list) < len(obj.object_list)):
                     max_ass = obj
-        obj_for_set = max_ass.get_objects()
+        obj_for_set = sorted(  # thresholds take the units of the monitored objects
+            max_ass.get_objects(),
+            key=lambda obj: obj.CLASS_ID in (classID.REGISTER_MONITOR, classID.LIMITER))
         ass_id: int = max_ass.logical_name.e
         failures = 0
         """amount of objects failed one after another"""
-- 
2.43.0


From 56979d1ebb7415a2d085e49ab852dc58d7e281a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:58 +0000
Subject: [PATCH 113/122] fix: units of a profile followed the captured
 objects, not the columns of the buffer

---
 .../cosem_interface_classes/profile_generic/ver1.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 6a8c3d1..922f25d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -256,8 +256,8 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                 raise ValueError(F'Buffer of {scaler_profile} is empty')
             else:
                 unit_scaler_profile = scaler_profile.buffer[0]
-                for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
-                    for buffer_capture_object in self.buffer_capture_objects:
+                for buffer_capture_object in self.buffer_capture_objects:
+                    for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
                         if capture_object == buffer_capture_object:
                             match scaler_unit:
                                 case cdt.ScalUnitType(): result.append(scaler_unit)
-- 
2.43.0


From bbee11a92d153e1d3a12137769b2664f942c09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 114/122] fix: a value kept the link to a cleared equal
 scaler_unit and missed later changes of the unit

---
 .../cosem_interface_classes/demand_register/ver0.py           | 4 ++--
 src/DLMS_SPODES/cosem_interface_classes/register.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index 7e4bfbf..8579baa 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -80,17 +80,17 @@ class DemandRegister(ic.COSEMInterfaceClasses):
     def __set_value_scaler_unit(self):
         match self.current_average_value:
             case cdt.Digital() | cdt.Float() if self.current_average_value.SCALER_UNIT is None:  self.current_average_value.SCALER_UNIT = self.scaler_unit
-            case cdt.Digital() | cdt.Float() if self.current_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
             case cdt.Digital() | cdt.Float() if getattr(self.current_average_value.__class__, "SCALER_UNIT", None) is None:  # set by the previous scaler_unit of this object
                 self.current_average_value.SCALER_UNIT = None
                 self.current_average_value.SCALER_UNIT = self.scaler_unit
+            case cdt.Digital() | cdt.Float() if self.current_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
             case cdt.Digital() | cdt.Float():                   raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.current_average_value.SCALER_UNIT}')
             case _:                                             """set only for digital"""
         match self.last_average_value:
             case cdt.Digital() | cdt.Float() if self.last_average_value.SCALER_UNIT is None:  self.last_average_value.SCALER_UNIT = self.scaler_unit
-            case cdt.Digital() | cdt.Float() if self.last_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
             case cdt.Digital() | cdt.Float() if getattr(self.last_average_value.__class__, "SCALER_UNIT", None) is None:  # set by the previous scaler_unit of this object
                 self.last_average_value.SCALER_UNIT = None
                 self.last_average_value.SCALER_UNIT = self.scaler_unit
+            case cdt.Digital() | cdt.Float() if self.last_average_value.SCALER_UNIT == self.scaler_unit: """ already set """
             case cdt.Digital() | cdt.Float():                   raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.last_average_value.SCALER_UNIT}')
             case _:                                             """set only for digital"""
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index 66cba19..f89bc9a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -47,10 +47,10 @@ class Register(ic.COSEMInterfaceClasses):
     def __set_value_scaler_unit(self):
         match self.value:
             case cdt.Digital() | cdt.Float() if self.value.SCALER_UNIT is None:  self.value.SCALER_UNIT = self.scaler_unit
-            case cdt.Digital() | cdt.Float() if self.value.SCALER_UNIT == self.scaler_unit: """ already set """
             case cdt.Digital() | cdt.Float() if getattr(self.value.__class__, "SCALER_UNIT", None) is None:  # set by the previous scaler_unit of this object
                 self.value.SCALER_UNIT = None
                 self.value.SCALER_UNIT = self.scaler_unit
+            case cdt.Digital() | cdt.Float() if self.value.SCALER_UNIT == self.scaler_unit: """ already set """
             case cdt.Digital() | cdt.Float():                                    raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.value.SCALER_UNIT}')
             case _:                                                              """set only for digital"""
 
-- 
2.43.0


From 4d30578abfa292b7b31dd8fb783eb6b3c9c483c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 115/122] fix: encode and get_copy of a scaled value ignored
 its scaler: the raw value was wrong

---
 .../cosem_interface_classes/cosem_interface_class.py          | 4 +---
 src/DLMS_SPODES/types/common_data_types.py                    | 4 ++++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 303a061..283aaed 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -237,9 +237,7 @@ class COSEMInterfaceClasses(ABC):
             else:
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
-            ret = attr.copy()
-            ret.set(value)
-            return ret
+            return attr.get_copy(value)
 
     def set_attr(self,
                  index: int,
diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 59b03f1..cd3eba7 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -457,6 +457,10 @@ class Digital(ABC):
         """ override SimpleDataType for send scaler_unit . use only for check and send contents """
         return self.__class__(value, self.SCALER_UNIT)
 
+    def get_copy(self, value) -> Self:
+        """override: the new value is in the same unit"""
+        return self._new_instance(value)
+
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-- 
2.43.0


From a60b607152e21eb95f1b54cc7f4ebf5274d0e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:16 +0000
Subject: [PATCH 116/122] fix: a structure was made from a longer one or from
 contents with a rest, which was dropped silently

---
 src/DLMS_SPODES/types/common_data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index cd3eba7..f366666 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1202,8 +1202,11 @@ class Structure(ComplexDataType):
             case None:
                 for el in self.ELEMENTS:
                     self.values.append(el.TYPE())
-            case bytearray():              self.from_content(bytes(value))
-            case Structure():              self.from_content(value.contents)
+            case bytearray() | Structure():
+                contents = bytes(value) if isinstance(value, bytearray) else value.contents
+                self.from_content(contents)
+                if len(self.contents) != len(contents):
+                    raise ValueError(F"Struct {self.__class__.__name__} got contents: {contents.hex()}, used only {self.contents.hex()}")
             # case Structure():              self.__from_sequence(value)
             case _:                        raise ValueError(F'for {self.__class__.__name__} "{value=}" not supported')
 
-- 
2.43.0


From 8cbc7e19fb1295b0c9b5c204e9171bd87c68ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:47 +0000
Subject: [PATCH 117/122] fix: a name kept as an object identifier could not be
 set from or made of another one

---
 src/DLMS_SPODES/types/common_data_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f366666..0530e6b 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1414,6 +1414,7 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = False
                         super(AXDR, self).__init__(value)
             case None:                                              self.__init__(self.DEFAULT)
+            case AXDR():                                            self.__init__(value.encoding)
             case _:
                 self.__dict__['is_xdr'] = False
                 super(AXDR, self).__init__(value)
-- 
2.43.0


From 1ea177fec2419b743b7cd20679e99a22f67b6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:01 +0000
Subject: [PATCH 118/122] fix: a range of a profile was asked of class 1 of the
 first clock, whatever clock the profile is sorted by

---
 .../cosem_interface_classes/profile_generic/ver1.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 922f25d..f87548b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -200,9 +200,11 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         class RangeDescriptor(cdt.Structure):
             # cb_preset = TODO: make check 'selected_values' from self.capture_objects or
             # cb_post_set = TODO: make check 'selected_values' from self.capture_objects
-            DEFAULT = b'\x02\x04\x02\x04\x12\x00\x01\x09\x06\x00\x00\x01\x00\x00\xff\x0f\x02\x12\x00\x00\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff' \
-                      b'\x09\x0c\x07\xe4\x01\x02\xff\xff\xff\xff\xff\x80\x00\xff\x01\x00' \
-                if isinstance(sort_obj, Clock) else (self.sort_object.encoding, None, None, None)
+            DEFAULT = (self.sort_object.encoding,
+                       b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff',
+                       b'\x09\x0c\x07\xe4\x01\x02\xff\xff\xff\xff\xff\x80\x00\xff',
+                       None) \
+                if isinstance(sort_obj, Clock) and int(self.sort_object.attribute_index) == 2 else (self.sort_object.encoding, None, None, None)
             restricting_object: structs.CaptureObjectDefinition
             from_value: value_type
             to_value: value_type
-- 
2.43.0


From 9cf12e47f528e24ee6e5ccb4d9830d1a78d86aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:48 +0000
Subject: [PATCH 119/122] fix: an array of values of several possible types, as
 thresholds of a register monitor, couldn't be shown

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0530e6b..524e230 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1101,7 +1101,11 @@ class Array(__Array, ComplexDataType):
             case _:                raise ValueError(F'Init {self.__class__} with Value: "{value}" not supported')
 
     def __str__(self):
-        return F"{self.TAG if self.TYPE is None else self.TYPE.TAG}[{len(self.values)}]"
+        if self.TYPE is None:
+            name = self.TAG
+        else:
+            name = getattr(self.TYPE, "TAG", None) or self.TYPE.NAME  # element of choice hasn't own tag
+        return F"{name}[{len(self.values)}]"
 
     def append(self, element: CommonDataType | None | Any = None):
         """ append element to end """
-- 
2.43.0


From c3c4c3bc504cad077edae40627542554daa0e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:30 +0000
Subject: [PATCH 120/122] fix: an object identifier with an unfinished or
 padded last arc was taken as another one

---
 src/DLMS_SPODES/types/common_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 524e230..222c53e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1398,6 +1398,8 @@ class AXDR(ABC):
                             values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
+                                if tmp == 0 and values_in[0] == 0b1000_0000:
+                                    raise ValueError(F"A-XDR object identifier {xdr.hex()} isn't minimal")
                                 tmp <<= 7
                                 if values_in[0] >= 0b1000_0000:
                                     tmp += values_in.popleft() & 0b0111_1111
@@ -1409,7 +1411,7 @@ class AXDR(ABC):
                                         raise ValueError(F"A-XDR object identifier {xdr.hex()} is too long")
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
-                            if None in values:
+                            if None in values or xdr[-1] >= 0b1000_0000:
                                 raise ValueError(F"A-XDR object identifier {xdr.hex()} is truncated")
                             self.__dict__['values'] = tuple(values)
                         else:
-- 
2.43.0


From d631955c9fc06e5c63e80d03b1ffe54283390888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:15 +0000
Subject: [PATCH 121/122] fix: a value with double hyphen couldn't be saved
 with comments

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index f9e41e0..d2e737d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -4,6 +4,7 @@ usage of those definitions in the COSEM environment. All codes, which are not ex
 reserved for future use."""
 from __future__ import annotations
 import os
+import re
 import copy
 from struct import pack
 import datetime
@@ -1201,7 +1202,7 @@ class Collection:
                             else:
                                 el_attrib: dict = {'index': str(index)}
                                 if with_comment:
-                                    object_node.append(ET.Comment(F'{el.NAME}: {attr}'))
+                                    object_node.append(ET.Comment(re.sub("-(?=-|$)", "- ", F'{el.NAME}: {attr}')))  # a comment can't contain double hyphen
                                 ET.SubElement(object_node, 'attribute', attrib=el_attrib).text = attr.encoding.hex()
                         case _:
                             logger.warning('PASS')
-- 
2.43.0


From ca6b9f6750743a702942f6cd5aa1024daee55da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:44 +0000
Subject: [PATCH 122/122] fix: an HDLC address with the end bit in its third
 octet was taken as one of four octets

---
 src/DLMS_SPODES/hdlc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 6908ded..a17e6e7 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -161,7 +161,7 @@ class Address:
                 match it:
                     case 0: new = cls(bytes(value[:1])); break
                     case 1: new = cls(bytes(value[:2])); break
-                    case 3: new = cls(bytes(value[:4])); break
+                    case 3 if value[2] % 2 == 0: new = cls(bytes(value[:4])); break
         else:
             raise ValueError('HDLC source address wrong, not found end bit')
         del value[:len(new)]
-- 
2.43.0

