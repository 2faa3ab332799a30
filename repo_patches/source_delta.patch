From 678e9a07956142fe26834e7992af3a66c7cdf56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 01/87] fix: hand semaphore slots over directly so cancelled
 wake-ups are not lost

---
 zigpy/datastructures.py | 65 ++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f7da1ee..4cfeeed 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -41,21 +41,21 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._comparison_counter: int = 0
 
         self._waiters: list[tuple[int, int, asyncio.Future]] = []
-        self._wakeup_scheduled: bool = False
 
     @property
     @functools.cache
     def _loop(self) -> asyncio.BaseEventLoop:
         return asyncio.get_running_loop()
 
-    def _wake_up_next(self) -> None:
-        while self._waiters:
+    def _wake_up_waiters(self) -> None:
+        """Hand all free slots over to the highest priority waiters."""
+        while self._waiters and self._value > 0:
             _, _, waiter = heapq.heappop(self._waiters)
 
             if not waiter.done():
+                # The slot is transferred directly, it never becomes available to others
+                self._value -= 1
                 waiter.set_result(None)
-                self._wakeup_scheduled = True
-                return
 
     @property
     def value(self) -> int:
@@ -76,8 +76,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._max_value += delta
 
         # Wake up any pending waiters
-        for _ in range(min(len(self._waiters), max(0, delta))):
-            self._wake_up_next()
+        self._wake_up_waiters()
 
     @property
     def num_waiting(self) -> int:
@@ -96,28 +95,34 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         True.
         """
 
-        # _wakeup_scheduled is set if *another* task is scheduled to wakeup
-        # but its acquire() is not resumed yet
-        while self._wakeup_scheduled or self._value <= 0:
-            # To ensure that our objects don't have to be themselves comparable, we
-            # maintain a global count and increment it on every insert. This way,
-            # the tuple `(-priority, count, item)` will never have to compare `item`.
-            self._comparison_counter += 1
-
-            fut = self._loop.create_future()
-            obj = (-priority, self._comparison_counter, fut)
-            heapq.heappush(self._waiters, obj)
-
-            try:
-                await fut
-                # reset _wakeup_scheduled *after* waiting for a future
-                self._wakeup_scheduled = False
-            except asyncio.CancelledError:
-                self._wake_up_next()
-                raise
-
-        assert self._value > 0
-        self._value -= 1
+        # Free slots are always handed over to waiters first so, if one is available,
+        # nobody is waiting for it
+        if self._value > 0:
+            self._value -= 1
+            return True
+
+        # To ensure that our objects don't have to be themselves comparable, we
+        # maintain a global count and increment it on every insert. This way,
+        # the tuple `(-priority, count, item)` will never have to compare `item`.
+        self._comparison_counter += 1
+
+        fut = self._loop.create_future()
+        obj = (-priority, self._comparison_counter, fut)
+        heapq.heappush(self._waiters, obj)
+
+        try:
+            await fut
+        except asyncio.CancelledError:
+            if fut.done() and not fut.cancelled():
+                # We were cancelled after being given a slot: give it to someone else
+                self._value += 1
+                self._wake_up_waiters()
+            elif obj in self._waiters:
+                self._waiters.remove(obj)
+                heapq.heapify(self._waiters)
+
+            raise
+
         return True
 
     def release(self) -> None:
@@ -130,7 +135,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
             raise ValueError("Semaphore released too many times")
 
         self._value += 1
-        self._wake_up_next()
+        self._wake_up_waiters()
 
     def __call__(self, priority: int = 0):
         """Allows specifying the priority by calling the context manager.
-- 
2.43.0


From 8e0759c81042bd8a3750f960b128d8914a9cce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 02/87] fix: expire debounced objects in order of their
 expiration time

---
 zigpy/datastructures.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index 4cfeeed..db2044c 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -231,7 +231,6 @@ class Debouncer:
         self._times: dict[typing.Any, float] = {}
         self._queue: list[tuple[float, int, typing.Any]] = []
 
-        self._last_time: int = 0
         self._dedup_counter: int = 0
 
     @functools.cached_property
@@ -243,9 +242,9 @@ class Debouncer:
         if now is None:
             now = self._loop.time()
 
-        # We store the negative expiration time to ensure we can pop expiring objects
-        while self._queue and -self._queue[-1][0] < now:
-            _, _, obj = self._queue.pop()
+        # The queue is a heap: the object that expires first is always at the front
+        while self._queue and self._queue[0][0] < now:
+            _, _, obj = heapq.heappop(self._queue)
             self._times.pop(obj)
 
     def is_filtered(self, obj: typing.Any, now: float | None = None) -> bool:
@@ -263,12 +262,8 @@ class Debouncer:
         """Check if an object should be filtered. If not, store it."""
         now = self._loop.time()
 
-        # For platforms with low-resolution clocks, we need to make sure that `obj` will
-        # never be compared by `heapq`!
-        if now > self._last_time:
-            self._last_time = now
-            self._dedup_counter = 0
-
+        # Expiration times can be identical, we need to make sure that `obj` will never be
+        # compared by `heapq`!
         self._dedup_counter += 1
 
         # If the object is filtered, do nothing
@@ -277,7 +272,7 @@ class Debouncer:
 
         # Otherwise, queue it
         self._times[obj] = now + expire_in
-        heapq.heappush(self._queue, (-(now + expire_in), self._dedup_counter, obj))
+        heapq.heappush(self._queue, (now + expire_in, self._dedup_counter, obj))
 
         return False
 
-- 
2.43.0


From 42166639e12378448c2796adadd6fdf8dd029e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 03/87] fix: encode and decode subnormal, out-of-range and
 inexact floats per IEEE 754

---
 zigpy/types/basic.py | 57 ++++++++++----------------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index c08cab8..a0a2ee3 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -635,6 +635,10 @@ class bitmap64_be(bitmap_factory(uint64_t_be)):
     pass
 
 
+# IEEE 754 binary16, binary32, and binary64
+_FLOAT_FORMATS = {2: "<e", 4: "<f", 8: "<d"}
+
+
 class BaseFloat(float):
     _exponent_bits = None
     _fraction_bits = None
@@ -648,59 +652,22 @@ class BaseFloat(float):
         cls._fraction_bits = fraction_bits
         cls._size = size_bits // 8
 
-    @staticmethod
-    def _convert_format(*, src: BaseFloat, dst: BaseFloat, n: int) -> int:
-        """Converts an integer representing a float from one format into another. Note:
-
-        1. Format is assumed to be little endian: 0b[sign bit] [exponent] [fraction]
-        2. Truncates/extends the exponent, preserving the special cases of all 1's
-        and all 0's.
-        3. Truncates/extends the fractional bits from the right, allowing lossless
-        conversion to a "bigger" representation.
-        """
-
-        src_sign = n >> (src._exponent_bits + src._fraction_bits)
-        src_frac = n & ((1 << src._fraction_bits) - 1)
-        src_biased_exp = (n >> src._fraction_bits) & ((1 << src._exponent_bits) - 1)
-        src_exp = src_biased_exp - 2 ** (src._exponent_bits - 1)
-
-        if src_biased_exp == (1 << src._exponent_bits) - 1:
-            dst_biased_exp = 2**dst._exponent_bits - 1
-        elif src_biased_exp == 0:
-            dst_biased_exp = 0
-        else:
-            dst_min_exp = 2 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
-            dst_max_exp = 2 ** (dst._exponent_bits - 1) - 2  # Can't be all ones
-            dst_exp = min(max(dst_min_exp, src_exp), dst_max_exp)
-            dst_biased_exp = dst_exp + 2 ** (dst._exponent_bits - 1)
-
-        # We add/remove LSBs
-        if src._fraction_bits > dst._fraction_bits:
-            dst_frac = src_frac >> (src._fraction_bits - dst._fraction_bits)
-        else:
-            dst_frac = src_frac << (dst._fraction_bits - src._fraction_bits)
-
-        return (
-            src_sign << (dst._exponent_bits + dst._fraction_bits)
-            | dst_biased_exp << (dst._fraction_bits)
-            | dst_frac
-        )
-
     def serialize(self) -> bytes:
-        return self._convert_format(
-            src=Double, dst=self, n=int.from_bytes(struct.pack("<d", self), "little")
-        ).to_bytes(self._size, "little")
+        try:
+            return struct.pack(_FLOAT_FORMATS[self._size], self)
+        except OverflowError as exc:
+            raise ValueError(
+                f"{float(self)} does not fit into {self._size} bytes"
+            ) from exc
 
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[BaseFloat, bytes]:
         if len(data) < cls._size:
             raise ValueError(f"Data is too short to contain {cls._size} bytes")
 
-        double_bytes = cls._convert_format(
-            src=cls, dst=Double, n=int.from_bytes(data[: cls._size], "little")
-        ).to_bytes(Double._size, "little")
+        (value,) = struct.unpack(_FLOAT_FORMATS[cls._size], data[: cls._size])
 
-        return cls(struct.unpack("<d", double_bytes)[0]), data[cls._size :]
+        return cls(value), data[cls._size :]
 
 
 class Half(BaseFloat, exponent_bits=5, fraction_bits=10):
-- 
2.43.0


From 36cd08c7d4a4ce7456c6bd43a83969162af92f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 04/87] fix: prefix character strings with their length in
 bytes

---
 zigpy/types/basic.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index a0a2ee3..d4b350d 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -907,15 +907,18 @@ class CharacterString(str):
         return instance
 
     def serialize(self) -> bytes:
-        if len(self) >= pow(256, self._prefix_length) - 1:
+        # The length prefix counts encoded bytes, not characters
+        encoded = self.encode("utf8")
+
+        if len(encoded) >= pow(256, self._prefix_length) - 1:
             raise ValueError("String is too long")
 
         if self.invalid:
             return self._invalid_length.to_bytes(self._prefix_length, "little")
 
-        return len(self).to_bytes(
-            self._prefix_length, "little", signed=False
-        ) + self.encode("utf8")
+        return (
+            len(encoded).to_bytes(self._prefix_length, "little", signed=False) + encoded
+        )
 
     @classmethod
     def deserialize(cls: type[T], data: bytes) -> tuple[T, bytes]:
@@ -949,7 +952,7 @@ def LimitedCharString(max_len):  # noqa: N802
         _max_len = max_len
 
         def serialize(self) -> bytes:
-            if len(self) > self._max_len:
+            if len(self.encode("utf8")) > self._max_len:
                 raise ValueError(f"String is too long (>{self._max_len})")
             return super().serialize()
 
-- 
2.43.0


From 0c045a1287c50018d178a739d4cd4e1735d58730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 05/87] fix: use the two byte invalid length marker for long
 character strings

---
 zigpy/types/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index d4b350d..25d42af 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -945,6 +945,7 @@ class CharacterString(str):
 
 class LongCharacterString(CharacterString):
     _prefix_length = 2
+    _invalid_length = (1 << (8 * _prefix_length)) - 1
 
 
 def LimitedCharString(max_len):  # noqa: N802
-- 
2.43.0


From 6cf0f4f04d337374e99235eec9665d3898b0c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 06/87] fix: clear the strobe bit of a warning when strobe is
 turned off

---
 zigpy/zcl/clusters/security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/clusters/security.py b/zigpy/zcl/clusters/security.py
index 0ed393a..ed7a09d 100644
--- a/zigpy/zcl/clusters/security.py
+++ b/zigpy/zcl/clusters/security.py
@@ -441,7 +441,7 @@ class WarningType(_SquawkOrWarningCommand):
 
     @strobe.setter
     def strobe(self, strobe: Strobe) -> None:
-        self.value = (self.value & 0xF7) | (
+        self.value = (self.value & 0xFB) | (
             (strobe & 0x01) << 2  # type:ignore[operator]
         )
 
-- 
2.43.0


From a9ea01209fed687b8f64bcca1a0d1e3d9cc34f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 07/87] fix: allow copying and printing reporting
 configurations without optional parts

---
 zigpy/zcl/foundation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 9591f2d..bfddd4e 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -753,17 +753,21 @@ class AttributeReportingStatus(t.enum8):
 
 
 class AttributeReportingConfig:
+    # Not every record has these, depending on its direction, status, and data type
+    timeout: int | None = None
+    reportable_change: int | None = None
+
     def __init__(self, other: AttributeReportingConfig | None = None) -> None:
         if isinstance(other, self.__class__):
             self.direction: ReportingDirection = other.direction
             self.attrid: t.uint16_t = other.attrid
             if self.direction == ReportingDirection.ReceiveReports:
-                self.timeout: int = other.timeout
+                self.timeout = other.timeout
                 return
             self.datatype: DataTypeId = other.datatype
             self.min_interval: int = other.min_interval
             self.max_interval: int = other.max_interval
-            self.reportable_change: int = other.reportable_change
+            self.reportable_change = other.reportable_change
 
     def serialize(self, *, _only_dir_and_attrid: bool = False) -> bytes:
         r = ReportingDirection(self.direction).serialize()
-- 
2.43.0


From bbc99bb935665aa1c4d3a4d3a592fd5c4f1f454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 08/87] fix: declare user descriptors as lists of sixteen bytes

---
 zigpy/zdo/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 3b38e6b..52ad17f 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -559,7 +559,7 @@ CLUSTERS = {
     ZDOCmd.Device_annce: (NWK, IEEE, ("Capability", t.uint8_t)),
     ZDOCmd.User_Desc_set: (
         NWKI,
-        ("UserDescriptor", t.FixedList[16, t.uint8_t]),
+        ("UserDescriptor", t.FixedList[t.uint8_t, 16]),
     ),  # Really a string
     ZDOCmd.System_Server_Discovery_req: (("ServerMask", t.uint16_t),),
     ZDOCmd.Discovery_store_req: (
@@ -665,7 +665,7 @@ CLUSTERS = {
         STATUS,
         NWKI,
         ("Length", t.uint8_t),
-        ("UserDescriptor", t.Optional(t.FixedList[16, t.uint8_t])),
+        ("UserDescriptor", t.Optional(t.FixedList[t.uint8_t, 16])),
     ),
     ZDOCmd.Discovery_Cache_rsp: (STATUS,),
     ZDOCmd.User_Desc_conf: (STATUS, NWKI),
-- 
2.43.0


From 8344aac563b402d1bbd5601d1cd5c0c61e57b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 09/87] fix: use the specified field widths for end device bind
 and cache lookups

---
 zigpy/zdo/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 52ad17f..bf817e9 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -591,9 +591,9 @@ CLUSTERS = {
         ("BindingTarget", t.uint16_t),
         ("SrcAddress", t.EUI64),
         ("SrcEndpoint", t.uint8_t),
-        ("ProfileID", t.uint8_t),
-        ("InClusterList", t.LVList[t.uint8_t]),
-        ("OutClusterList", t.LVList[t.uint8_t]),
+        ("ProfileID", t.uint16_t),
+        ("InClusterList", t.LVList[t.uint16_t]),
+        ("OutClusterList", t.LVList[t.uint16_t]),
     ),
     ZDOCmd.Bind_req: (
         ("SrcAddress", t.EUI64),
@@ -676,7 +676,7 @@ CLUSTERS = {
     ZDOCmd.Active_EP_store_rsp: (STATUS,),
     ZDOCmd.Simple_Desc_store_rsp: (STATUS,),
     ZDOCmd.Remove_node_cache_rsp: (STATUS,),
-    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.EUI64), NWK, IEEE),
+    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.NWK), NWK, IEEE),
     ZDOCmd.Extended_Simple_Desc_rsp: (
         STATUS,
         NWK,
-- 
2.43.0


From e9d540d5d89cdc7156ad022d1f93043f9c80e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 10/87] fix: serialize named ZDO broadcast arguments in schema
 order

---
 zigpy/zdo/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 0d43bb9..8f8ab3e 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -307,7 +307,9 @@ def broadcast(
     assert set(named_args.keys()) & set(params)
 
     sequence = app.get_sequence()
-    data = bytes([sequence]) + t.serialize(named_args.values(), param_types)
+    data = bytes([sequence]) + t.serialize(
+        [named_args[name] for name in params if name in named_args], param_types
+    )
 
     return zigpy.device.broadcast(
         app,
-- 
2.43.0


From d369e65fee81a4d85e3ddb2fec45da93abf14493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 11/87] fix: ignore packets with truncated headers or
 mismatched ZDO endpoints

---
 zigpy/device.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index f4d4503..a4f5262 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -455,10 +455,12 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         # Ignore packets that do not match the endpoint's clusters.
         # TODO: this isn't actually necessary, we can parse most packets by cluster ID.
-        if (
-            packet.dst_ep != zdo.ZDO_ENDPOINT
-            and packet.cluster_id not in endpoint.in_clusters
-            and packet.cluster_id not in endpoint.out_clusters
+        if packet.dst_ep != zdo.ZDO_ENDPOINT and (
+            packet.src_ep == zdo.ZDO_ENDPOINT
+            or (
+                packet.cluster_id not in endpoint.in_clusters
+                and packet.cluster_id not in endpoint.out_clusters
+            )
         ):
             self.debug(
                 "Ignoring message on unknown cluster %s for endpoint %s",
@@ -467,13 +469,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             )
             return
 
-        # Parse the ZCL/ZDO header first. This should never fail.
+        # Parse the ZCL/ZDO header first. This fails only if the packet is too short.
         data = packet.data.serialize()
 
-        if packet.dst_ep == zdo.ZDO_ENDPOINT:
-            hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
-        else:
-            hdr, _ = foundation.ZCLHeader.deserialize(data)
+        try:
+            if packet.dst_ep == zdo.ZDO_ENDPOINT:
+                hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
+            else:
+                hdr, _ = foundation.ZCLHeader.deserialize(data)
+        except ValueError as exc:
+            self.debug("Failed to parse packet header %r", packet, exc_info=exc)
+            return
 
         try:
             if (
-- 
2.43.0


From a0490b0d3d35d25ce0eac046e952b23af57d5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 12/87] fix: tolerate attribute values that cannot be converted
 to the declared type

---
 zigpy/zcl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 338394f..308652b 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -484,7 +484,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value = self.attributes[attr.attrid].type(attr.value.value)
                 except KeyError:
                     value = attr.value.value
-                except ValueError:
+                except (ValueError, TypeError, OverflowError):
                     self.debug(
                         "Couldn't normalize %a attribute with %s value",
                         attr.attrid,
@@ -585,7 +585,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                         value = self.attributes[record.attrid].type(record.value.value)
                     except KeyError:
                         value = record.value.value
-                    except ValueError:
+                    except (ValueError, TypeError, OverflowError):
                         value = record.value.value
                         self.debug(
                             "Couldn't normalize %a attribute with %s value",
-- 
2.43.0


From fd381696e17c5d6918f8979edb3c8e35fd20f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 13/87] fix: log ZDO parsing warnings when the coordinator is
 not yet known

---
 zigpy/zdo/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 8f8ab3e..6177f8f 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -272,8 +272,10 @@ class ZDO(zigpy.util.CatchingTaskMixin, zigpy.util.ListenableMixin):
         return self.Mgmt_Permit_Joining_req(duration, tc_significance)
 
     def log(self, lvl, msg, *args, **kwargs):
+        # There may be no device if a packet is received before the coordinator is known
+        nwk = self._device.nwk if self._device is not None else t.NWK(0xFFFF)
         msg = "[0x%04x:zdo] " + msg
-        args = (self._device.nwk, *args)
+        args = (nwk, *args)
         return LOGGER.log(lvl, msg, *args, **kwargs)
 
     @property
-- 
2.43.0


From 17b73b26d02481a1742f8d93c73ead9c2dc01774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 14/87] fix: cancelling one combined caller must not cancel the
 others

---
 zigpy/util.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 08fed28..2f0b7df 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -482,6 +482,7 @@ def combine_concurrent_calls(
     """Decorator that allows concurrent calls to expensive coroutines to share a result."""
 
     tasks: dict[tuple, asyncio.Task] = {}
+    waiters: dict[asyncio.Task, int] = {}
     signature = inspect.signature(function)
 
     @functools.wraps(function)
@@ -492,16 +493,27 @@ def combine_concurrent_calls(
         # XXX: all args and kwargs are assumed to be hashable
         key = tuple(bound.arguments.items())
 
-        if key in tasks:
-            return await tasks[key]
+        task = tasks.get(key)
 
-        tasks[key] = asyncio.create_task(function(*args, **kwargs))
+        if task is None or task.done():
+            task = tasks[key] = asyncio.create_task(function(*args, **kwargs))
+            waiters[task] = 0
+
+        waiters[task] += 1
 
         try:
-            return await tasks[key]
+            # Cancelling one caller must not affect any of the others
+            return await asyncio.shield(task)
         finally:
-            assert tasks[key].done()
-            del tasks[key]
+            waiters[task] -= 1
+
+            if waiters[task] == 0:
+                # The last caller to leave either has a result or was cancelled
+                task.cancel()
+                del waiters[task]
+
+                if tasks.get(key) is task:
+                    del tasks[key]
 
     return replacement
 
-- 
2.43.0


From 84a9002890e50311b977832459def0bf8fbb0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 15/87] fix: an asynchronous event listener failing
 synchronously must not affect the others

---
 zigpy/util.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 2f0b7df..8d6d4dc 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -77,19 +77,24 @@ class ListenableMixin:
             if method is None:
                 continue
 
-            if include_context:
-                tasks.append(method(self, *args))
-            else:
-                tasks.append(method(*args))
+            try:
+                if include_context:
+                    task = asyncio.ensure_future(method(self, *args))
+                else:
+                    task = asyncio.ensure_future(method(*args))
+            except Exception as e:  # noqa: BLE001
+                LOGGER.debug(
+                    "Error calling listener %r with args %r", method, args, exc_info=e
+                )
+                continue
+
+            tasks.append(task)
 
         results = []
         for result in await asyncio.gather(*tasks, return_exceptions=True):
-            if isinstance(result, Exception):
+            if isinstance(result, BaseException):
                 LOGGER.debug(
-                    "Error calling listener %r with args %r",
-                    method,
-                    args,
-                    exc_info=result,
+                    "Error calling listener with args %r", args, exc_info=result
                 )
             else:
                 results.append(result)
-- 
2.43.0


From 28095ebb916f19c9936ce4fdd1be4de2b13ed68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 16/87] fix: a callback unregistering itself must not hide a
 command from the next listener

---
 zigpy/device.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index a4f5262..745e1e7 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -4,7 +4,6 @@ import asyncio
 import contextlib
 from datetime import datetime, timezone
 import enum
-import itertools
 import logging
 import sys
 import time
@@ -528,10 +527,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             return
 
         # Pass the request off to a listener, if one is registered
-        for listener in itertools.chain(
-            self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
-            self._application._req_listeners[self],
-        ):
+        req_listeners = self._application._req_listeners
+
+        for src, listener in [
+            (src, listener)
+            for src in (zigpy.listeners.ANY_DEVICE, self)
+            for listener in req_listeners[src]
+        ]:
+            # An earlier callback may have unregistered this one
+            if listener not in req_listeners[src]:
+                continue
+
             # Resolve only until the first future listener
             if listener.resolve(hdr, args) and isinstance(
                 listener, zigpy.listeners.FutureListener
-- 
2.43.0


From afa1ee5b2112da29ff73619884e3843961bb5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 17/87] fix: a failing response matcher must not stop packet
 processing

---
 zigpy/listeners.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/listeners.py b/zigpy/listeners.py
index 503e7ca..2e6ad77 100644
--- a/zigpy/listeners.py
+++ b/zigpy/listeners.py
@@ -39,7 +39,12 @@ class BaseRequestListener:
                 # FIXME: ZDO does not use command schemas and cannot be matched
                 pass
             elif callable(matcher):
-                match = matcher(hdr, command)
+                try:
+                    match = matcher(hdr, command)
+                except Exception:  # noqa: BLE001
+                    LOGGER.warning(
+                        "Caught an exception while executing matcher", exc_info=True
+                    )
             else:
                 LOGGER.warning(
                     "Matcher %r and command %r %r are incompatible",
-- 
2.43.0


From 5ae9faa5dc3432b6c66eef0dc6d38ff2e21033f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 18/87] fix: report the status of a default response to an
 attribute read

---
 zigpy/zcl/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 308652b..ac0bc3d 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -574,9 +574,12 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(result[0], list):
+            # Assume default response
+            status = getattr(result, "status", result[0])
+
             for attrid in to_read:
                 orig_attribute = orig_attributes[attrid]
-                failure[orig_attribute] = result[0]  # Assume default response
+                failure[orig_attribute] = status
         else:
             for record in result[0]:
                 orig_attribute = orig_attributes[record.attrid]
-- 
2.43.0


From d3db932be5cdd0eafff3532564e2788ae60ddc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 19/87] fix: tolerate unrequested records in an attribute read
 response

---
 zigpy/zcl/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index ac0bc3d..7721fd8 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -582,7 +582,8 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 failure[orig_attribute] = status
         else:
             for record in result[0]:
-                orig_attribute = orig_attributes[record.attrid]
+                # Some devices respond with more attributes than they were asked for
+                orig_attribute = orig_attributes.get(record.attrid, record.attrid)
                 if record.status == foundation.Status.SUCCESS:
                     try:
                         value = self.attributes[record.attrid].type(record.value.value)
-- 
2.43.0


From abc18f07f33914380d2fddc48ae6ee330335168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 20/87] fix: return an attribute under every key it was read
 with

---
 zigpy/zcl/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 7721fd8..36e8d35 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -543,7 +543,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
     ) -> Any:
         success, failure = {}, {}
         attribute_ids: list[int] = []
-        orig_attributes: dict[int, int | str] = {}
+        orig_attributes: dict[int, list[int | str]] = {}
 
         for attribute in attributes:
             if isinstance(attribute, str):
@@ -553,7 +553,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 attrid = attribute
 
             attribute_ids.append(attrid)
-            orig_attributes[attrid] = attribute
+            orig_attributes.setdefault(attrid, []).append(attribute)
 
         to_read = []
         if allow_cache or only_cache:
@@ -578,12 +578,11 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             status = getattr(result, "status", result[0])
 
             for attrid in to_read:
-                orig_attribute = orig_attributes[attrid]
-                failure[orig_attribute] = status
+                failure.update(dict.fromkeys(orig_attributes[attrid], status))
         else:
             for record in result[0]:
                 # Some devices respond with more attributes than they were asked for
-                orig_attribute = orig_attributes.get(record.attrid, record.attrid)
+                orig_keys = orig_attributes.get(record.attrid, [record.attrid])
                 if record.status == foundation.Status.SUCCESS:
                     try:
                         value = self.attributes[record.attrid].type(record.value.value)
@@ -598,12 +597,12 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                             exc_info=True,
                         )
                     self._update_attribute(record.attrid, value)
-                    success[orig_attribute] = value
+                    success.update(dict.fromkeys(orig_keys, value))
                     self.remove_unsupported_attribute(record.attrid)
                 else:
                     if record.status == foundation.Status.UNSUPPORTED_ATTRIBUTE:
                         self.add_unsupported_attribute(record.attrid)
-                    failure[orig_attribute] = record.status
+                    failure.update(dict.fromkeys(orig_keys, record.status))
 
         return success, failure
 
-- 
2.43.0


From b92167c206c0065cb8bf76b919cac75fff411f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:42 +0000
Subject: [PATCH 21/87] fix: cache the attributes written by a successful
 undivided write

---
 zigpy/zcl/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 36e8d35..2a813e1 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -675,12 +675,21 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
 
         return result
 
-    def write_attributes_undivided(
+    async def write_attributes_undivided(
         self, attributes: dict[str | int, Any], manufacturer: int | None = None
     ) -> list:
         """Either all or none of the attributes are written by the device."""
         args = self._write_attr_records(attributes)
-        return self._write_attributes_undivided(args, manufacturer=manufacturer)
+        result = await self._write_attributes_undivided(args, manufacturer=manufacturer)
+        if not isinstance(result[0], list):
+            return result
+
+        records = result[0]
+        if len(records) == 1 and records[0].status == foundation.Status.SUCCESS:
+            for attr_rec in args:
+                self._update_attribute(attr_rec.attrid, attr_rec.value.value)
+
+        return result
 
     def bind(self):
         return self._endpoint.device.zdo.bind(cluster=self)
-- 
2.43.0


From 3839593676c1be7f2b8b1cd2a46ecd5a067fe999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:32 +0000
Subject: [PATCH 22/87] fix: report the status of a default response to a
 quirk's attribute read

---
 zigpy/quirks/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 8d847c6..245d887 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -319,11 +319,14 @@ class CustomCluster(zigpy.zcl.Cluster):
             attrs_to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(results[0], list):
+            # Assume default response
+            status = getattr(results, "status", results[0])
+
             for attrid in attrs_to_read:
                 succeeded.append(  # noqa: PERF401
                     foundation.ReadAttributeRecord(
                         attrid,
-                        results[0],
+                        status,
                         foundation.TypeValue(),
                     )
                 )
-- 
2.43.0


From 8b698a70ebcbe9d61456a6c40ee63d6db69c9e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:32 +0000
Subject: [PATCH 23/87] fix: allow clearing cached attributes that have no
 update time

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 2a813e1..e961623 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -867,7 +867,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 return
 
             self._attr_cache.pop(attrid)
-            self._attr_last_updated.pop(attrid)
+            self._attr_last_updated.pop(attrid, None)
             self.listener_event("attribute_cleared", attrid)
         else:
             now = datetime.now(timezone.utc)
-- 
2.43.0


From d3e8048e27aa124b5e169e7aace9b3ed031b9480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 24/87] fix: refuse to make octet strings out of numbers

---
 zigpy/types/basic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 25d42af..4c6c594 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -685,6 +685,13 @@ class Double(BaseFloat, exponent_bits=11, fraction_bits=52):
 class LVBytes(bytes):
     _prefix_length = 1
 
+    def __new__(cls, value=b"", *args, **kwargs):
+        # `bytes(5)` is five zero bytes, not a representation of the number
+        if isinstance(value, int):
+            raise ValueError(f"{value!r} is not an octet string")  # noqa: TRY004
+
+        return super().__new__(cls, value, *args, **kwargs)
+
     def serialize(self):
         if len(self) >= pow(256, self._prefix_length) - 1:
             raise ValueError("OctetString is too long")
-- 
2.43.0


From 78654cfed19520207dd2d013414270161d177129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 25/87] fix: configure reporting with the declared data type of
 the attribute

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index e961623..c2d050a 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -715,7 +715,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
         cfg = foundation.AttributeReportingConfig()
         cfg.direction = direction
         cfg.attrid = attr_def.id
-        cfg.datatype = foundation.DataType.from_python_type(attr_def.type).type_id
+        cfg.datatype = attr_def.zcl_type
         cfg.min_interval = min_interval
         cfg.max_interval = max_interval
         cfg.reportable_change = reportable_change
-- 
2.43.0


From 8a02316db18db0ae0fa110c4ca6cad72dd724632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 26/87] fix: treat a missing descriptor in a successful
 response as a failed exchange

---
 zigpy/device.py   | 2 +-
 zigpy/endpoint.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 745e1e7..a099675 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -221,7 +221,7 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             priority=t.PacketPriority.HIGH,
         )
 
-        if status != zdo_t.Status.SUCCESS:
+        if status != zdo_t.Status.SUCCESS or node_desc is None:
             raise zigpy.exceptions.InvalidResponse(
                 f"Requesting Node Descriptor failed: {status}"
             )
diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b4ca4f2..c5d4e63 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -69,7 +69,7 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
                 # These endpoints are essentially junk but this lets the device join
                 self.status = Status.ENDPOINT_INACTIVE
                 return
-            elif status != ZDOStatus.SUCCESS:
+            elif status != ZDOStatus.SUCCESS or sd is None:
                 raise zigpy.exceptions.InvalidResponse(
                     "Failed to retrieve service descriptor: %s", status
                 )
-- 
2.43.0


From 3fd746e0a8373aa07a39b4684bba403c58b64666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 27/87] fix: do not announce a device whose interview is still
 running

---
 zigpy/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index a099675..b88f993 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -201,7 +201,7 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     def schedule_initialize(self) -> asyncio.Task | None:
         # Already-initialized devices don't need to be re-initialized
-        if self.is_initialized:
+        if self.is_initialized and not self.initializing:
             self.debug("Skipping initialization, device is fully initialized")
             self._application.device_initialized(self)
             return None
-- 
2.43.0


From 360bf573f543539be17480bae7ccbd56f8694500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 28/87] fix: keep an inactive endpoint marked as inactive when
 the interview is retried

---
 zigpy/endpoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index c5d4e63..0207acb 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -58,7 +58,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
     async def initialize(self) -> None:
         self.info("Discovering endpoint information")
 
-        if self.profile_id is not None or self.status == Status.ENDPOINT_INACTIVE:
+        if self.status == Status.ENDPOINT_INACTIVE:
+            self.info("Endpoint is already known to be inactive")
+            return
+
+        if self.profile_id is not None:
             self.info("Endpoint descriptor already queried")
         else:
             status, _, sd = await self._device.zdo.Simple_Desc_req(
-- 
2.43.0


From 670d1d22a46612eaa3e0999200e7bcee1fe5c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 29/87] fix: forget a removed device whatever its leave request
 ends with

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 04a0366..3c6a9c9 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -530,7 +530,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                 else 7
             ):
                 await device.zdo.leave(remove_children=remove_children, rejoin=rejoin)
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
+        except Exception as ex:  # noqa: BLE001
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
         self.devices.pop(device.ieee, None)
-- 
2.43.0


From a6caf5fecc27f32961b601f0338a55e540b79193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 30/87] fix: do not interview a device that is being removed

---
 zigpy/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 3c6a9c9..17b0d0a 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -533,6 +533,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except Exception as ex:  # noqa: BLE001
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
+        # Packets received in the meantime may have restarted initialization
+        device.cancel_initialization()
         self.devices.pop(device.ieee, None)
 
     def deserialize(
-- 
2.43.0


From fbe72a6ae45d60dc146ebf4f5b220486380a99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 31/87] fix: allow adding an endpoint to a group without a name

---
 zigpy/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 0207acb..44d0f19 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -151,7 +151,7 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     async def add_to_group(self, grp_id: int, name: str | None = None) -> ZCLStatus:
         try:
-            res = await self.groups.add(grp_id, name)
+            res = await self.groups.add(grp_id, name or "")
         except AttributeError:
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
-- 
2.43.0


From af13f79e3bbad8317705e34913bf64edd4eddb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 32/87] fix: use the status of a default response to a group
 command

---
 zigpy/endpoint.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 44d0f19..0070926 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -149,6 +149,14 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         return cluster
 
+    @staticmethod
+    def _group_command_status(res: Any) -> ZCLStatus:
+        """Status of a group command response, which can be a default response."""
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            return res.status
+
+        return res[0]
+
     async def add_to_group(self, grp_id: int, name: str | None = None) -> ZCLStatus:
         try:
             res = await self.groups.add(grp_id, name or "")
@@ -156,13 +164,15 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
-        if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
-            self.debug("Couldn't add to 0x%04x group: %s", grp_id, res[0])
-            return res[0]
+        status = self._group_command_status(res)
+
+        if status not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
+            self.debug("Couldn't add to 0x%04x group: %s", grp_id, status)
+            return status
 
         group = self.device.application.groups.add_group(grp_id, name)
         group.add_member(self)
-        return res[0]
+        return status
 
     async def remove_from_group(self, grp_id: int) -> ZCLStatus:
         try:
@@ -171,13 +181,15 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot remove 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
-        if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
-            self.debug("Couldn't remove to 0x%04x group: %s", grp_id, res[0])
-            return res[0]
+        status = self._group_command_status(res)
+
+        if status not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
+            self.debug("Couldn't remove to 0x%04x group: %s", grp_id, status)
+            return status
 
         if grp_id in self.device.application.groups:
             self.device.application.groups[grp_id].remove_member(self)
-        return res[0]
+        return status
 
     async def group_membership_scan(self) -> None:
         """Sync up group membership."""
-- 
2.43.0


From b91370b6b039d765f3789b27edaec8f0daa4ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 33/87] fix: do not announce the removal of a group that does
 not exist

---
 zigpy/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ba89d55..d8ac7a9 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -151,7 +151,7 @@ class Groups(ListenableMixin, dict):
         if isinstance(group, Group):
             for member in (*group.values(),):
                 group.remove_member(member)
-        self.listener_event("group_removed", group)
+            self.listener_event("group_removed", group)
         return group
 
     remove_group = pop
-- 
2.43.0


From f80ef3fe3fac60d7111c87a8c187fc9cf1764b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 34/87] fix: do not announce the removal of an endpoint that is
 no group member

---
 zigpy/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index d8ac7a9..4ce20fb 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -52,9 +52,9 @@ class Group(ListenableMixin, dict):
         return self
 
     def remove_member(self, ep: Endpoint, suppress_event: bool = False) -> Group:
-        self.pop(ep.unique_id, None)
+        removed = self.pop(ep.unique_id, None)
         ep.member_of.pop(self.group_id, None)
-        if not suppress_event:
+        if removed is not None and not suppress_event:
             self.listener_event("member_removed", self, ep)
         return self
 
-- 
2.43.0


From 8f7837c3d7be6a9e8283c514a8bf676f99de6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 35/87] fix: remove the endpoints of a removed device from
 their groups

---
 zigpy/application.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 17b0d0a..01e5d26 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -537,6 +537,11 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         device.cancel_initialization()
         self.devices.pop(device.ieee, None)
 
+        # A device that joins again later is not a member of any group
+        for endpoint in device.non_zdo_endpoints:
+            for group in tuple(endpoint.member_of.values()):
+                group.remove_member(endpoint)
+
     def deserialize(
         self,
         sender: zigpy.device.Device,
-- 
2.43.0


From 30370e666c8be6f5e85efc55590e1b9f2d7ca75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 36/87] fix: keep update times and unsupported attributes of
 clusters retained by a quirk

---
 zigpy/quirks/__init__.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 245d887..8232f0f 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -182,10 +182,11 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                     endpoint_id in replace_device.endpoints
                     and cluster_id in replace_device.endpoints[endpoint_id].in_clusters
                 ):
-                    cluster._attr_cache = (
-                        replace_device[endpoint_id]
-                        .in_clusters[cluster_id]
-                        ._attr_cache.copy()
+                    replaced = replace_device[endpoint_id].in_clusters[cluster_id]
+                    cluster._attr_cache = replaced._attr_cache.copy()
+                    cluster._attr_last_updated = replaced._attr_last_updated.copy()
+                    cluster.unsupported_attributes = (
+                        replaced.unsupported_attributes.copy()
                     )
 
         for c in replacement_data.get(SIG_EP_OUTPUT, []):
@@ -201,10 +202,11 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                     endpoint_id in replace_device.endpoints
                     and cluster_id in replace_device.endpoints[endpoint_id].out_clusters
                 ):
-                    cluster._attr_cache = (
-                        replace_device[endpoint_id]
-                        .out_clusters[cluster_id]
-                        ._attr_cache.copy()
+                    replaced = replace_device[endpoint_id].out_clusters[cluster_id]
+                    cluster._attr_cache = replaced._attr_cache.copy()
+                    cluster._attr_last_updated = replaced._attr_last_updated.copy()
+                    cluster.unsupported_attributes = (
+                        replaced.unsupported_attributes.copy()
                     )
 
 
-- 
2.43.0


From 96d3f92e5dede496e3f6f56e9a01329b4109b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 37/87] fix: create client clusters added by a v2 quirk as
 client clusters

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index e2d36fa..bcdcccd 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -160,7 +160,9 @@ class AddsMetadata:
             cluster = None
             cluster_id = self.cluster
         else:
-            cluster = self.cluster(endpoint, is_server=True)
+            cluster = self.cluster(
+                endpoint, is_server=self.cluster_type == ClusterType.Server
+            )
             cluster_id = cluster.cluster_id
 
         cluster = add_cluster(cluster_id, cluster)
-- 
2.43.0


From 3a5a7cd62ca381cdfb1d120a9334bf4c64fe43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 38/87] fix: make constant attributes of a v2 quirk readable

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index bcdcccd..1f4fb79 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -168,9 +168,11 @@ class AddsMetadata:
         cluster = add_cluster(cluster_id, cluster)
 
         if self.constant_attributes:
+            # Constant attributes are looked up by their ID
             cluster._CONSTANT_ATTRIBUTES = {
-                attribute.name: value
+                key: value
                 for attribute, value in self.constant_attributes.items()
+                for key in (attribute.id, attribute.name)
             }
 
 
-- 
2.43.0


From 53ff6c681d821707973d86a27acb9a7cfc10a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 39/87] fix: discover the other unknown devices when one
 discovery request fails

---
 zigpy/topology.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8dac4c4..abef4f0 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -250,5 +250,10 @@ class Topology(zigpy.util.ListenableMixin):
         # Try to discover any unknown devices
         for nwk in unknown_nwks:
             LOGGER.debug("Found unknown device nwk=%s", nwk)
-            await self._app._discover_unknown_device(nwk)
+
+            try:
+                await self._app._discover_unknown_device(nwk)
+            except Exception as e:  # noqa: BLE001
+                LOGGER.debug("Failed to discover device nwk=%s", nwk, exc_info=e)
+
             await asyncio.sleep(random.uniform(*REQUEST_DELAY))
-- 
2.43.0


From d0d65318c56ff5c2b6e8167d05bd06e556e99b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 40/87] fix: allow any iterable of devices to be scanned

---
 zigpy/topology.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index abef4f0..8a0d313 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -159,8 +159,10 @@ class Topology(zigpy.util.ListenableMixin):
         """Scan topology."""
 
         if devices is None:
-            # We iterate over a copy of the devices as opposed to the live dictionary
-            devices = list(self._app.devices.values())
+            devices = self._app.devices.values()
+
+        # We iterate over a copy of the devices as opposed to the live dictionary
+        devices = list(devices)
 
         for index, device in enumerate(devices):
             LOGGER.debug(
-- 
2.43.0


From 7d55beb56a215d44b21149e9a1e08826c86d7fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 41/87] fix: stop periodic topology scans even when a scan is
 running

---
 zigpy/topology.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8a0d313..11e38fb 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -74,14 +74,19 @@ class Topology(zigpy.util.ListenableMixin):
 
             LOGGER.debug("Starting scheduled neighbor scan")
 
+            # A manual scan cancels a running one and must not interrupt the scan loop, so
+            # it has to be told apart from a cancellation of the loop itself
+            scan_task = asyncio.create_task(self.scan())
+
             try:
-                await self.scan()
-            except asyncio.CancelledError:
-                # We explicitly catch a cancellation here to ensure the scan loop will
-                # not be interrupted if a manual scan is initiated
+                await asyncio.wait([scan_task])
+            finally:
+                scan_task.cancel()
+
+            if scan_task.cancelled():
                 LOGGER.debug("Topology scan cancelled")
-            except (Exception, asyncio.CancelledError):
-                LOGGER.debug("Topology scan failed", exc_info=True)
+            elif scan_task.exception() is not None:
+                LOGGER.debug("Topology scan failed", exc_info=scan_task.exception())
 
     async def scan(
         self, devices: typing.Iterable[zigpy.device.Device] | None = None
-- 
2.43.0


From 90be2e2b05bf5311fdeb152d8d09e8bd3f9a6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 42/87] fix: keep the manufacturer and model a quirk or the
 first endpoint gave a device when loading

---
 zigpy/appdb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 080deef..dc01794 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -740,15 +740,20 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     value,
                 )
 
-                # Populate the device's manufacturer and model attributes
-                if (
+                # Populate the device's manufacturer and model attributes, before any
+                # quirk has the chance to replace them
+                if filter is None:
+                    continue
+                elif (
                     cluster_id == Basic.cluster_id
                     and attr_id == Basic.AttributeDefs.manufacturer.id
+                    and dev.manufacturer is None
                 ):
                     dev.manufacturer = decode_str_attribute(value)
                 elif (
                     cluster_id == Basic.cluster_id
                     and attr_id == Basic.AttributeDefs.model.id
+                    and dev.model is None
                 ):
                     dev.model = decode_str_attribute(value)
 
-- 
2.43.0


From f1f89ca7502f34797272d46a29ea04c711d09d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 43/87] fix: discard the partial changes of a database update
 that failed

---
 zigpy/appdb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index dc01794..9ea8fb6 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -180,12 +180,21 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     args,
                     str(exc),
                 )
+                await self._rollback()
             except Exception as ex:  # noqa: BLE001
                 LOGGER.error(
                     "Unexpected error while processing %s(%s): %s", cb_name, args, ex
                 )
+                await self._rollback()
             self._callback_handlers.task_done()
 
+    async def _rollback(self) -> None:
+        """Discard the partial changes of a failed handler."""
+        try:
+            await self._db.rollback()
+        except Exception as ex:  # noqa: BLE001
+            LOGGER.error("Failed to roll back: %s", ex)
+
     async def shutdown(self) -> None:
         """Shutdown connection."""
         self.running = False
-- 
2.43.0


From 6b3abbb8142e73c1d46252eb15cee99e879f008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 44/87] fix: save devices that have inactive endpoints

---
 zigpy/appdb.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 9ea8fb6..9e9b8e9 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -38,6 +38,8 @@ DB_V_REGEX = re.compile(r"(?:_v\d+)?$")
 
 MIN_UPDATE_DELTA = timedelta(seconds=30).total_seconds()
 
+INACTIVE_ENDPOINT = 0xFFFF
+
 
 def _import_compatible_sqlite3(min_version: tuple[int, int, int]) -> types.ModuleType:
     """Loads an SQLite module with a library version matching the provided constraint."""
@@ -495,8 +497,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             (
                 device.ieee,
                 ep.endpoint_id,
-                ep.profile_id,
-                ep.device_type,
+                # Inactive endpoints have neither a profile nor a device type
+                INACTIVE_ENDPOINT if ep.profile_id is None else ep.profile_id,
+                INACTIVE_ENDPOINT if ep.device_type is None else ep.device_type,
                 ep.status,
             )
             for ep in device.non_zdo_endpoints
@@ -814,9 +817,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             async for ieee, epid, profile_id, device_type, status in cursor:
                 dev = self._application.get_device(ieee)
                 ep = dev.add_endpoint(epid)
-                ep.profile_id = profile_id
                 ep.status = zigpy.endpoint.Status(status)
 
+                if ep.status == zigpy.endpoint.Status.ENDPOINT_INACTIVE:
+                    continue
+
+                ep.profile_id = profile_id
+
                 if profile_id == zigpy.profiles.zha.PROFILE_ID:
                     ep.device_type = zigpy.profiles.zha.DeviceType(device_type)
                 elif profile_id == zigpy.profiles.zll.PROFILE_ID:
-- 
2.43.0


From a4d73391c64e5fb34823ba11d509f7cfdec7ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 45/87] fix: save the relays received while a device is
 interviewed

---
 zigpy/appdb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 9e9b8e9..5af63c9 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -278,6 +278,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         self.enqueue("_save_device_relays", device.ieee, relays)
 
     async def _save_device_relays(self, ieee: t.EUI64, relays: t.Relays | None) -> None:
+        await self._write_relays(ieee, relays)
+        await self._db.commit()
+
+    async def _write_relays(self, ieee: t.EUI64, relays: t.Relays | None) -> None:
         if relays is None:
             await self.execute(f"DELETE FROM relays{DB_V} WHERE ieee = ?", (ieee,))
         else:
@@ -286,8 +290,6 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                         DO UPDATE SET relays=excluded.relays WHERE relays != :relays"""
             await self.execute(q, {"ieee": ieee, "relays": relays.serialize()})
 
-        await self._db.commit()
-
     def attribute_updated(
         self,
         cluster: zigpy.typing.ClusterType,
@@ -481,6 +483,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if device.node_desc is not None:
             await self._save_node_descriptor(device)
 
+        if device.relays is not None:
+            await self._write_relays(device.ieee, device.relays)
+
         if isinstance(device, zigpy.quirks.BaseCustomDevice):
             await self._db.commit()
             return
-- 
2.43.0


From 7f56024f1d93161b3bff4af4c25c33fe42856b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 46/87] fix: load cached EUI64 attribute values as EUI64

---
 zigpy/appdb.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 5af63c9..55152ec 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -743,6 +743,16 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 if cluster_id not in clusters:
                     continue
 
+                attr_def = clusters[cluster_id].attributes.get(attr_id)
+
+                # EUI64 values are stored as text
+                if (
+                    attr_def is not None
+                    and issubclass(attr_def.type, t.EUI64)
+                    and isinstance(value, str)
+                ):
+                    value = t.EUI64.convert(value)
+
                 clusters[cluster_id]._attr_cache[attr_id] = value
                 clusters[cluster_id]._attr_last_updated[attr_id] = (
                     datetime.fromtimestamp(last_updated, timezone.utc)
-- 
2.43.0


From a287c9458378179407c08f8c975f3fd81024b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 47/87] fix: load the database when a quirk removed an endpoint
 that is in a group

---
 zigpy/appdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 55152ec..cbc1851 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -866,6 +866,11 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         async with self.execute(f"SELECT * FROM group_members{DB_V}") as cursor:
             async for group_id, ieee, ep_id in cursor:
                 dev = self._application.get_device(ieee)
+
+                # Some quirks remove endpoints
+                if ep_id not in dev.endpoints:
+                    continue
+
                 group = self._application.groups[group_id]
                 group.add_member(dev.endpoints[ep_id], suppress_event=True)
 
-- 
2.43.0


From 3fabef6935346c7da4aac725930e531267a4fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:24 +0000
Subject: [PATCH 48/87] fix: save a device even if one of its attribute values
 cannot be stored

---
 zigpy/appdb.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index cbc1851..4ee7e36 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -572,7 +572,18 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         q = f"""INSERT INTO attributes_cache{DB_V} VALUES (?, ?, ?, ?, ?, ?, ?)
                     ON CONFLICT (ieee, endpoint_id, cluster_type, cluster_id, attr_id)
                     DO UPDATE SET value=excluded.value, last_updated=excluded.last_updated"""
-        await self._db.executemany(q, clusters)
+
+        for row in clusters:
+            try:
+                await self.execute(q, row)
+            except (
+                sqlite3.InterfaceError,
+                sqlite3.ProgrammingError,
+                sqlite3.IntegrityError,
+                OverflowError,
+            ) as exc:
+                # Values that cannot be stored must not affect the rest of the device
+                LOGGER.debug("Failed to save attribute %s: %s", row, exc)
 
     async def _save_unsupported_attributes(self, ep: zigpy.typing.EndpointType) -> None:
         clusters = [
-- 
2.43.0


From 2bdb1adacf716b22f6015c65a9e32f5c1ca3666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:16 +0000
Subject: [PATCH 49/87] fix: do not save a device again that announces itself
 while it is removed

---
 zigpy/application.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 01e5d26..b0b45d1 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -64,6 +64,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
     def __init__(self, config: dict) -> None:
         self.devices: dict[t.EUI64, zigpy.device.Device] = {}
+        self._devices_being_removed: set[zigpy.device.Device] = set()
         self.state: zigpy.state.State = zigpy.state.State()
         self._listeners = {}
         self._config = self.SCHEMA(config)
@@ -463,6 +464,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         """Used by a device to signal that it is initialized"""
         LOGGER.debug("Device is initialized %s", device)
 
+        if device in self._devices_being_removed:
+            LOGGER.debug("Device is being removed, ignoring")
+            return
+
         self.listener_event("raw_device_initialized", device)
         device = zigpy.quirks.get_device(device)
         self.devices[device.ieee] = device
@@ -484,6 +489,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             return
 
         dev.cancel_initialization()
+        self._devices_being_removed.add(dev)
 
         LOGGER.info("Removing device 0x%04x (%s)", dev.nwk, ieee)
         self.create_task(
@@ -536,6 +542,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         # Packets received in the meantime may have restarted initialization
         device.cancel_initialization()
         self.devices.pop(device.ieee, None)
+        self._devices_being_removed.discard(device)
 
         # A device that joins again later is not a member of any group
         for endpoint in device.non_zdo_endpoints:
-- 
2.43.0


From f099aa6dc7e410b0b5ddf0c707003c43da4d1190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:16 +0000
Subject: [PATCH 50/87] fix: forget the neighbors and routes of removed devices

---
 zigpy/appdb.py       | 10 ++++++++++
 zigpy/application.py |  2 ++
 zigpy/topology.py    | 10 ++++++++++
 3 files changed, 22 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 4ee7e36..1659556 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -395,6 +395,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
     async def _routes_updated(self, ieee: t.EUI64, routes: list[zdo_t.Route]) -> None:
         await self.execute(f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", [ieee])
 
+        async with self.execute(
+            f"SELECT 1 FROM devices{DB_V} WHERE ieee = ?", [ieee]
+        ) as cursor:
+            # Unlike neighbors, routes are not tied to a device by a foreign key
+            if await cursor.fetchone() is None:
+                routes = []
+
         rows = [(ieee, *route.as_tuple()) for route in routes]
 
         await self._db.executemany(
@@ -457,6 +464,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _remove_device(self, device: zigpy.typing.DeviceType) -> None:
         await self.execute(f"DELETE FROM devices{DB_V} WHERE ieee = ?", (device.ieee,))
+        await self.execute(
+            f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", (device.ieee,)
+        )
         await self._db.commit()
 
     def raw_device_initialized(self, device: zigpy.typing.DeviceType) -> None:
diff --git a/zigpy/application.py b/zigpy/application.py
index b0b45d1..bcbb0ca 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -543,6 +543,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         device.cancel_initialization()
         self.devices.pop(device.ieee, None)
         self._devices_being_removed.discard(device)
+        self.topology.neighbors.pop(device.ieee, None)
+        self.topology.routes.pop(device.ieee, None)
 
         # A device that joins again later is not a member of any group
         for endpoint in device.non_zdo_endpoints:
diff --git a/zigpy/topology.py b/zigpy/topology.py
index 11e38fb..416a2c6 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -203,6 +203,11 @@ class Topology(zigpy.util.ListenableMixin):
                     "Scanned neighbors of %s: %s", device, self.neighbors[device.ieee]
                 )
 
+            if device.ieee not in self._app.devices:
+                LOGGER.debug("Device %s was removed, ignoring", device)
+                self.neighbors.pop(device.ieee, None)
+                continue
+
             self.listener_event(
                 "neighbors_updated", device.ieee, self.neighbors[device.ieee]
             )
@@ -222,6 +227,11 @@ class Topology(zigpy.util.ListenableMixin):
                     "Scanned routes of %s: %s", device, self.routes[device.ieee]
                 )
 
+            if device.ieee not in self._app.devices:
+                LOGGER.debug("Device %s was removed, ignoring", device)
+                self.routes.pop(device.ieee, None)
+                continue
+
             self.listener_event("routes_updated", device.ieee, self.routes[device.ieee])
 
         LOGGER.debug("Finished scanning neighbors for all devices")
-- 
2.43.0


From c9943f8cdd641a0fc341eb1c82a1c7725e21e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 51/87] fix: create a new database in one transaction

---
 zigpy/appdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 1659556..9bc07d8 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -996,7 +996,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         if db_version == 0 and not tables:
             # If this is a brand new database, just load the current schema
-            await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+            async with self._transaction():
+                await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+
             return False
         elif db_version > DB_VERSION:
             LOGGER.error(
-- 
2.43.0


From 5add7c386236c367ffbd6be1d62f69a9ec420447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 52/87] fix: roll back an upgrade whose commit fails

---
 zigpy/appdb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 9bc07d8..1d3afec 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -941,11 +941,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         try:
             yield
+            await self.execute("COMMIT")
         except Exception:  # noqa: BLE001
             await self.execute("ROLLBACK")
             raise
-        else:
-            await self.execute("COMMIT")
 
     async def _get_table_versions(self) -> dict[str, int]:
         tables = {}
-- 
2.43.0


From 5993f359bedb86ab494fb02408ea712b544f97ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 53/87] fix: read the network manager of an open coordinator
 backup in the order it is written

---
 zigpy/backups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index f7aef7d..7184dd4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -358,7 +358,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     if "nwk_manager" in network_meta:
         network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])
+            bytes.fromhex(network_meta["nwk_manager"])[::-1]
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
-- 
2.43.0


From c261f55ea8b0441c2af07dc04bda085556acb770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 54/87] fix: refuse values that are too long in open
 coordinator backups

---
 zigpy/backups.py | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index 7184dd4..b149a4f 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -316,6 +316,17 @@ def _network_backup_to_open_coordinator_backup(backup: NetworkBackup) -> dict[st
     }
 
 
+def _parse_hex(cls: type, text: str, *, reverse: bool = False) -> Any:
+    """Parses a hexadecimal string whose whole content is a single value."""
+    data = bytes.fromhex(text)
+    value, rest = cls.deserialize(data[::-1] if reverse else data)
+
+    if rest:
+        raise ValueError(f"Value is too long for {cls.__name__}: {text!r}")
+
+    return value
+
+
 def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBackup:
     """Creates a `NetworkBackup` from an Open Coordinator Backup dictionary."""
 
@@ -325,7 +336,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
     node_meta = internal.get("node", {})
 
     if "nwk" in node_meta:
-        node_info.nwk, _ = t.NWK.deserialize(bytes.fromhex(node_meta["nwk"])[::-1])
+        node_info.nwk = _parse_hex(t.NWK, node_meta["nwk"], reverse=True)
     else:
         node_info.nwk = t.NWK(0x0000)
 
@@ -334,9 +345,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
     ]
 
     # Should be identical to `metadata.internal.node.ieee`
-    node_info.ieee, _ = t.EUI64.deserialize(
-        bytes.fromhex(obj["coordinator_ieee"])[::-1]
-    )
+    node_info.ieee = _parse_hex(t.EUI64, obj["coordinator_ieee"], reverse=True)
     node_info.model = node_meta.get("model")
     node_info.manufacturer = node_meta.get("manufacturer")
     node_info.version = node_meta.get("version")
@@ -348,17 +357,17 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
         for k, v in internal.items()
         if k not in ("node", "network", "link_key_seqs", "creation_time")
     }
-    network_info.pan_id, _ = t.NWK.deserialize(bytes.fromhex(obj["pan_id"])[::-1])
-    network_info.extended_pan_id, _ = t.EUI64.deserialize(
-        bytes.fromhex(obj["extended_pan_id"])[::-1]
+    network_info.pan_id = _parse_hex(t.NWK, obj["pan_id"], reverse=True)
+    network_info.extended_pan_id = _parse_hex(
+        t.EUI64, obj["extended_pan_id"], reverse=True
     )
     network_info.nwk_update_id = obj["nwk_update_id"]
 
     network_meta = internal.get("network", {})
 
     if "nwk_manager" in network_meta:
-        network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])[::-1]
+        network_info.nwk_manager_id = _parse_hex(
+            t.NWK, network_meta["nwk_manager"], reverse=True
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
@@ -373,23 +382,21 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
     network_info.tc_link_key = zigpy.state.Key()
 
     if "tc_link_key" in network_meta:
-        network_info.tc_link_key.key, _ = t.KeyData.deserialize(
-            bytes.fromhex(network_meta["tc_link_key"]["key"])
+        network_info.tc_link_key.key = _parse_hex(
+            t.KeyData, network_meta["tc_link_key"]["key"]
         )
         network_info.tc_link_key.tx_counter = network_meta["tc_link_key"].get(
             "frame_counter", 0
         )
-        network_info.tc_link_key.partner_ieee, _ = t.EUI64.deserialize(
-            bytes.fromhex(network_meta["tc_address"])[::-1]
+        network_info.tc_link_key.partner_ieee = _parse_hex(
+            t.EUI64, network_meta["tc_address"], reverse=True
         )
     else:
         network_info.tc_link_key.key = conf.CONF_NWK_TC_LINK_KEY_DEFAULT
         network_info.tc_link_key.partner_ieee = node_info.ieee
 
     network_info.network_key = zigpy.state.Key()
-    network_info.network_key.key, _ = t.KeyData.deserialize(
-        bytes.fromhex(obj["network_key"]["key"])
-    )
+    network_info.network_key.key = _parse_hex(t.KeyData, obj["network_key"]["key"])
     network_info.network_key.tx_counter = obj["network_key"]["frame_counter"]
     network_info.network_key.seq = obj["network_key"]["sequence_number"]
 
@@ -398,11 +405,11 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     for device in obj["devices"]:
         if device["nwk_address"] is not None:
-            nwk, _ = t.NWK.deserialize(bytes.fromhex(device["nwk_address"])[::-1])
+            nwk = _parse_hex(t.NWK, device["nwk_address"], reverse=True)
         else:
             nwk = None
 
-        ieee, _ = t.EUI64.deserialize(bytes.fromhex(device["ieee_address"])[::-1])
+        ieee = _parse_hex(t.EUI64, device["ieee_address"], reverse=True)
 
         # The `is_child` key is currently optional
         if device.get("is_child", True):
@@ -413,7 +420,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
         if "link_key" in device:
             key = zigpy.state.Key()
-            key.key, _ = t.KeyData.deserialize(bytes.fromhex(device["link_key"]["key"]))
+            key.key = _parse_hex(t.KeyData, device["link_key"]["key"])
             key.tx_counter = device["link_key"]["tx_counter"]
             key.rx_counter = device["link_key"]["rx_counter"]
             key.partner_ieee = ieee
-- 
2.43.0


From bf47d6b46515464f19ef66fd89e63ebc7e1718db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 55/87] fix: refuse backups with missing addresses

---
 zigpy/state.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/zigpy/state.py b/zigpy/state.py
index 23943a2..535741d 100644
--- a/zigpy/state.py
+++ b/zigpy/state.py
@@ -23,6 +23,14 @@ LOGICAL_TYPE_TO_JSON = {
 JSON_TO_LOGICAL_TYPE = {v: k for k, v in LOGICAL_TYPE_TO_JSON.items()}
 
 
+def _convert_address(cls: type[t.EUI64], address: str) -> t.EUI64:
+    """Converts an address that has to be present."""
+    if address is None:
+        raise ValueError("Address is missing")
+
+    return cls.convert(address)
+
+
 @dataclasses.dataclass
 class Key(t.BaseDataclassMixin):
     """APS/TC Link key."""
@@ -49,7 +57,7 @@ class Key(t.BaseDataclassMixin):
             tx_counter=obj["tx_counter"],
             rx_counter=obj["rx_counter"],
             seq=obj["seq"],
-            partner_ieee=t.EUI64.convert(obj["partner_ieee"]),
+            partner_ieee=_convert_address(t.EUI64, obj["partner_ieee"]),
         )
 
 
@@ -80,7 +88,7 @@ class NodeInfo(t.BaseDataclassMixin):
     def from_dict(cls, obj: dict[str, Any]) -> NodeInfo:
         return cls(
             nwk=t.NWK.convert(obj["nwk"]),
-            ieee=t.EUI64.convert(obj["ieee"]),
+            ieee=_convert_address(t.EUI64, obj["ieee"]),
             logical_type=JSON_TO_LOGICAL_TYPE[obj["logical_type"]],
             model=obj["model"],
             manufacturer=obj["manufacturer"],
@@ -152,7 +160,7 @@ class NetworkInfo(t.BaseDataclassMixin):
     @classmethod
     def from_dict(cls, obj: dict[str, Any]) -> NetworkInfo:
         return cls(
-            extended_pan_id=t.ExtendedPanId.convert(obj["extended_pan_id"]),
+            extended_pan_id=_convert_address(t.ExtendedPanId, obj["extended_pan_id"]),
             pan_id=t.PanId.convert(obj["pan_id"]),
             nwk_update_id=obj["nwk_update_id"],
             nwk_manager_id=t.NWK.convert(obj["nwk_manager_id"]),
@@ -165,9 +173,9 @@ class NetworkInfo(t.BaseDataclassMixin):
                 (Key.from_dict(o) for o in obj["key_table"]),
                 key=lambda k: k.partner_ieee,
             ),
-            children=[t.EUI64.convert(ieee) for ieee in obj["children"]],
+            children=[_convert_address(t.EUI64, ieee) for ieee in obj["children"]],
             nwk_addresses={
-                t.EUI64.convert(ieee): t.NWK.convert(nwk)
+                _convert_address(t.EUI64, ieee): t.NWK.convert(nwk)
                 for ieee, nwk in obj["nwk_addresses"].items()
             },
             stack_specific=obj["stack_specific"],
-- 
2.43.0


From e7eabf575019b35606e3f51b4e09c6db2b187f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 56/87] fix: detach network backups from the live network state

---
 zigpy/backups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index b149a4f..7ff587f 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -134,9 +134,10 @@ class BackupManager(ListenableMixin):
 
     def from_network_state(self) -> NetworkBackup:
         """Create a backup object from the current network's state."""
+        # Radio libraries may update the state objects in place
         return NetworkBackup(
-            network_info=self.app.state.network_info,
-            node_info=self.app.state.node_info,
+            network_info=copy.deepcopy(self.app.state.network_info),
+            node_info=copy.deepcopy(self.app.state.node_info),
         )
 
     async def create_backup(self, *, load_devices: bool = False) -> NetworkBackup:
-- 
2.43.0


From 280d57eb78b1b98ad8086aeb1f50ab605758ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 57/87] fix: do not restore frame counters beyond their maximum

---
 zigpy/backups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index 7ff587f..9f5a042 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -164,7 +164,11 @@ class BackupManager(ListenableMixin):
         key = backup.network_info.network_key
         new_backup = NetworkBackup(
             network_info=backup.network_info.replace(
-                network_key=key.replace(tx_counter=key.tx_counter + counter_increment)
+                network_key=key.replace(
+                    tx_counter=min(
+                        key.tx_counter + counter_increment, t.uint32_t.max_value
+                    )
+                )
             ),
             node_info=backup.node_info,
         )
-- 
2.43.0


From fa95435f7a64c6818a1959596553311116533aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 58/87] fix: write plain integer node addresses into backups as
 four digits

---
 zigpy/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/state.py b/zigpy/state.py
index 535741d..35783bc 100644
--- a/zigpy/state.py
+++ b/zigpy/state.py
@@ -76,7 +76,7 @@ class NodeInfo(t.BaseDataclassMixin):
 
     def as_dict(self) -> dict[str, Any]:
         return {
-            "nwk": str(self.nwk)[2:],
+            "nwk": str(t.NWK(self.nwk))[2:],
             "ieee": str(self.ieee),
             "logical_type": LOGICAL_TYPE_TO_JSON[self.logical_type],
             "model": self.model,
-- 
2.43.0


From a44626a35bc3799f52f306d83adc52547bec92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 59/87] fix: do not form networks with the broadcast PAN ID

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index bcbb0ca..074a4e3 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -355,7 +355,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             stack_specific["form_quickly"] = True
 
         if pan_id is None:
-            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE + 1)
+            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE)
 
         if channel is None and fast:
             # Don't run an energy scan if this is an ephemeral network
-- 
2.43.0


From 7becb96e822160fb4ae5f6d7a48aabad28b37a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 60/87] fix: do not form networks with a reserved extended PAN
 ID

---
 zigpy/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 074a4e3..4470dbc 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -374,9 +374,12 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             channel = zigpy.util.pick_optimal_channel(channel_energy, channels=channels)
 
         if extended_pan_id is None:
-            # TODO: exclude `FF:FF:FF:FF:FF:FF:FF:FF` and possibly more reserved EPIDs
             extended_pan_id = t.ExtendedPanId(os.urandom(8))
 
+            # All-zero and all-one extended PAN IDs are reserved
+            while extended_pan_id.serialize() in (b"\x00" * 8, b"\xFF" * 8):
+                extended_pan_id = t.ExtendedPanId(os.urandom(8))
+
         if network_key is None:
             network_key = t.KeyData(os.urandom(16))
 
-- 
2.43.0


From 71e9a6cb27219e939e1baf1a82104d8a40d55ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 61/87] fix: do not allocate a list the size of the channel
 bitmap

---
 zigpy/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 4470dbc..840e4fc 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -273,8 +273,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             )
         except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
             LOGGER.warning("Coordinator does not support energy scanning")
-            scanned_channels = channels
-            energy_values = [0] * scanned_channels
+            scanned_channels = list(channels)
+            energy_values = [0] * len(scanned_channels)
         else:
             _, scanned_channels, _, _, energy_values = rsp
 
-- 
2.43.0


From 69c0eb68f0b1d0fcd41220df19b045c6fc5c5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 62/87] fix: accept textual node addresses when permitting
 joins

---
 zigpy/application.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 840e4fc..2781a98 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -1260,7 +1260,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         """Permit joining on a specific node or all router nodes."""
         assert 0 <= time_s <= 254
         if node is not None:
-            if not isinstance(node, t.EUI64):
+            if isinstance(node, str):
+                node = t.EUI64.convert(node)
+            elif not isinstance(node, t.EUI64):
                 node = t.EUI64([t.uint8_t(p) for p in node])
             if node != self.state.node_info.ieee:
                 try:
-- 
2.43.0


From 7248e606264c718600565d0de07a7efa90699ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 63/87] fix: accept validated OTA providers and refuse
 malformed ones when validating

---
 zigpy/config/validators.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 4cad78f..76d6713 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -113,14 +113,27 @@ def cv_ota_provider_name(name: str | None) -> type[zigpy.ota.providers.BaseOtaPr
     """Validate OTA provider name."""
     import zigpy.ota.providers
 
-    if name not in zigpy.ota.providers.OTA_PROVIDER_TYPES:
+    provider_types = zigpy.ota.providers.OTA_PROVIDER_TYPES
+
+    if isinstance(name, type) and name in provider_types.values():
+        return name
+
+    if not isinstance(name, str) or name not in provider_types:
         raise vol.Invalid(f"Unknown OTA provider: {name!r}")
 
-    return zigpy.ota.providers.OTA_PROVIDER_TYPES[name]
+    return provider_types[name]
 
 
 def cv_ota_provider(obj: dict) -> zigpy.ota.providers.BaseOtaProvider:
     """Validate OTA provider."""
+    import zigpy.ota.providers
+
+    if isinstance(obj, zigpy.ota.providers.BaseOtaProvider):
+        return obj
+
+    if not isinstance(obj, dict):
+        raise vol.Invalid(f"Invalid OTA provider: {obj!r}")
+
     provider_type = obj.get(zigpy.config.CONF_OTA_PROVIDER_TYPE)
     provider_cls = cv_ota_provider_name(provider_type)
 
-- 
2.43.0


From c87ede6de930de8d949167d7ab247e33c1f0942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 64/87] fix: accept validated descriptors and refuse unknown
 fields when validating

---
 zigpy/config/validators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 76d6713..2b03382 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -67,11 +67,16 @@ def cv_key(key: list[int]) -> t.KeyData:
 
 def cv_simple_descriptor(obj: dict[str, typing.Any]) -> zdo_t.SimpleDescriptor:
     """Validates a ZDO simple descriptor."""
-    if not isinstance(obj, dict):
+    if isinstance(obj, zdo_t.SimpleDescriptor):
+        descriptor = obj
+    elif isinstance(obj, dict):
+        try:
+            descriptor = zdo_t.SimpleDescriptor(**obj)
+        except (TypeError, ValueError) as err:
+            raise vol.Invalid(f"Invalid simple descriptor {obj!r}") from err
+    else:
         raise vol.Invalid("Not a dictionary")
 
-    descriptor = zdo_t.SimpleDescriptor(**obj)
-
     if not descriptor.is_valid:
         raise vol.Invalid(f"Invalid simple descriptor {descriptor!r}")
 
-- 
2.43.0


From c79220ef198169c7e698a6edc32d58f252c0e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 65/87] fix: refuse malformed addresses in the configuration
 with a validation error

---
 zigpy/config/__init__.py   |  7 +++++--
 zigpy/config/validators.py | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/zigpy/config/__init__.py b/zigpy/config/__init__.py
index 1943c44..72038ea 100644
--- a/zigpy/config/__init__.py
+++ b/zigpy/config/__init__.py
@@ -37,6 +37,7 @@ from zigpy.config.defaults import (
 from zigpy.config.validators import (
     cv_boolean,
     cv_deprecated,
+    cv_eui64,
     cv_folder,
     cv_hex,
     cv_json_file,
@@ -132,7 +133,9 @@ SCHEMA_NETWORK = vol.Schema(
         ),
         vol.Optional(
             CONF_NWK_EXTENDED_PAN_ID, default=CONF_NWK_EXTENDED_PAN_ID_DEFAULT
-        ): vol.Any(None, t.ExtendedPanId, t.ExtendedPanId.convert),
+        ): vol.Any(
+            None, t.ExtendedPanId, vol.All(cv_eui64, vol.Coerce(t.ExtendedPanId))
+        ),
         vol.Optional(CONF_NWK_KEY, default=CONF_NWK_KEY_DEFAULT): vol.Any(None, cv_key),
         vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.Range(
             min=0, max=255
@@ -141,7 +144,7 @@ SCHEMA_NETWORK = vol.Schema(
             None, t.PanId, vol.All(cv_hex, vol.Coerce(t.PanId))
         ),
         vol.Optional(CONF_NWK_TC_ADDRESS, default=CONF_NWK_TC_ADDRESS_DEFAULT): vol.Any(
-            None, t.EUI64, t.EUI64.convert
+            None, cv_eui64
         ),
         vol.Optional(
             CONF_NWK_TC_LINK_KEY, default=CONF_NWK_TC_LINK_KEY_DEFAULT
diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 2b03382..e1bc1c8 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -65,6 +65,20 @@ def cv_key(key: list[int]) -> t.KeyData:
     return t.KeyData(key)
 
 
+def cv_eui64(value: str | t.EUI64) -> t.EUI64:
+    """Validate an EUI64 address."""
+    if isinstance(value, t.EUI64):
+        return value
+
+    if not isinstance(value, str):
+        raise vol.Invalid(f"{value!r} is not a valid EUI64 address")
+
+    try:
+        return t.EUI64.convert(value)
+    except (AssertionError, ValueError) as err:
+        raise vol.Invalid(f"{value!r} is not a valid EUI64 address") from err
+
+
 def cv_simple_descriptor(obj: dict[str, typing.Any]) -> zdo_t.SimpleDescriptor:
     """Validates a ZDO simple descriptor."""
     if isinstance(obj, zdo_t.SimpleDescriptor):
-- 
2.43.0


From fa384679192623aeec96b767ae32738f22f40539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 66/87] fix: refuse malformed channel lists in the
 configuration with a validation error

---
 zigpy/config/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/config/__init__.py b/zigpy/config/__init__.py
index 72038ea..616c516 100644
--- a/zigpy/config/__init__.py
+++ b/zigpy/config/__init__.py
@@ -129,7 +129,7 @@ SCHEMA_NETWORK = vol.Schema(
             None, vol.All(cv_hex, vol.Range(min=11, max=26))
         ),
         vol.Optional(CONF_NWK_CHANNELS, default=CONF_NWK_CHANNELS_DEFAULT): vol.Any(
-            t.Channels, vol.All(list, t.Channels.from_channel_list)
+            t.Channels, vol.All([int], t.Channels.from_channel_list)
         ),
         vol.Optional(
             CONF_NWK_EXTENDED_PAN_ID, default=CONF_NWK_EXTENDED_PAN_ID_DEFAULT
-- 
2.43.0


From 2f8b116cd0a8c6e15cd8964cacdb9dea41a66f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 67/87] fix: refuse paths of the wrong type in the
 configuration with a validation error

---
 zigpy/config/validators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index e1bc1c8..f816fe8 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -110,6 +110,9 @@ def cv_deprecated(message: str) -> typing.Callable[[typing.Any], typing.Any]:
 
 def cv_json_file(value: str) -> pathlib.Path:
     """Validate a JSON file."""
+    if not isinstance(value, (str, pathlib.PurePath)):
+        raise vol.Invalid(f"{value!r} is not a JSON file")
+
     path = pathlib.Path(value)
 
     if not path.is_file():
@@ -120,6 +123,9 @@ def cv_json_file(value: str) -> pathlib.Path:
 
 def cv_folder(value: str) -> pathlib.Path:
     """Validate a folder path."""
+    if not isinstance(value, (str, pathlib.PurePath)):
+        raise vol.Invalid(f"{value!r} is not a directory")
+
     path = pathlib.Path(value)
 
     if not path.is_dir():
-- 
2.43.0


From 7947d15d415e1e07b7bf6e35d6339c95aef5cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 68/87] fix: refuse fractional key sequence numbers in the
 configuration

---
 zigpy/config/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/config/__init__.py b/zigpy/config/__init__.py
index 616c516..9ac45bd 100644
--- a/zigpy/config/__init__.py
+++ b/zigpy/config/__init__.py
@@ -137,8 +137,8 @@ SCHEMA_NETWORK = vol.Schema(
             None, t.ExtendedPanId, vol.All(cv_eui64, vol.Coerce(t.ExtendedPanId))
         ),
         vol.Optional(CONF_NWK_KEY, default=CONF_NWK_KEY_DEFAULT): vol.Any(None, cv_key),
-        vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.Range(
-            min=0, max=255
+        vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.All(
+            int, vol.Range(min=0, max=255)
         ),
         vol.Optional(CONF_NWK_PAN_ID, default=CONF_NWK_PAN_ID_DEFAULT): vol.Any(
             None, t.PanId, vol.All(cv_hex, vol.Coerce(t.PanId))
-- 
2.43.0


From d3c565388b50af7600e23682ce268c50fd0c279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 69/87] fix: do not keep the stall timer running after a
 firmware update ended

---
 zigpy/ota/manager.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zigpy/ota/manager.py b/zigpy/ota/manager.py
index 5f86cde..875f0dd 100644
--- a/zigpy/ota/manager.py
+++ b/zigpy/ota/manager.py
@@ -90,6 +90,13 @@ class OTAManager:
 
     def __exit__(self, *exc_details) -> None:
         self.stack.close()
+        self._stall_timer.cancel()
+        self._upgrade_end_future.cancel()
+
+    def _reschedule_stall_timer(self) -> None:
+        """Expect progress within the stall period, unless the update is over."""
+        if not self._upgrade_end_future.done():
+            self._stall_timer.reschedule(MAX_TIME_WITHOUT_PROGRESS)
 
     def _stall_callback(self) -> None:
         """Handle the stall timer expiring."""
@@ -166,7 +173,7 @@ class OTAManager:
                 tsn=hdr.tsn,
             )
 
-            self._stall_timer.reschedule(MAX_TIME_WITHOUT_PROGRESS)
+            self._reschedule_stall_timer()
 
             # Image block requests can sometimes succeed after the device aborts the
             # update. We should not allow the progress callback to be called.
@@ -213,7 +220,7 @@ class OTAManager:
             self.device.debug("OTA image_notify handler exception", exc_info=ex)
             self._finish(foundation.Status.FAILURE)
         else:
-            self._stall_timer.reschedule(MAX_TIME_WITHOUT_PROGRESS)
+            self._reschedule_stall_timer()
 
     async def wait(self) -> foundation.Status:
         """Wait for upgrade end response."""
-- 
2.43.0


From 95f19e0e724fe95f9aa41be376c23fdf854cfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 70/87] fix: refuse firmware images with inconsistent lengths
 in their header

---
 zigpy/ota/image.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index a9e5296..404e63a 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -164,6 +164,20 @@ class BaseOTAImage:
 
     header: OTAImageHeader
 
+    @staticmethod
+    def _deserialize_header(data: bytes) -> tuple[OTAImageHeader, bytes]:
+        """Parse the header of an image, its lengths have to be consistent."""
+        hdr, remaining = OTAImageHeader.deserialize(data)
+        length = len(data) - len(remaining)
+
+        if hdr.header_length != length or hdr.image_size < length:
+            raise ValueError(
+                f"Header length ({hdr.header_length}) and image size"
+                f" ({hdr.image_size}) do not suit a header of {length} bytes"
+            )
+
+        return hdr, remaining
+
     @classmethod
     def deserialize(cls, data) -> tuple[BaseOTAImage, bytes]:
         raise NotImplementedError  # pragma: no cover
@@ -180,7 +194,7 @@ class OTAImage(t.Struct, BaseOTAImage):
 
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[OTAImage, bytes]:
-        hdr, data = OTAImageHeader.deserialize(data)
+        hdr, data = cls._deserialize_header(data)
         elements_len = hdr.image_size - hdr.header_length
 
         if elements_len > len(data):
@@ -223,7 +237,7 @@ class HueSBLOTAImage(BaseOTAImage):
 
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[Self, bytes]:
-        header, remaining_data = OTAImageHeader.deserialize(data)
+        header, remaining_data = cls._deserialize_header(data)
         firmware = remaining_data[: header.image_size - len(header.serialize())]
 
         if len(data) < header.image_size:
-- 
2.43.0


From 494cad451381345196e6e9a4323511c40b2debf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 71/87] fix: use the configured index URL of all OTA providers

The Salus, Sonoff, Inovelli and ThirdReality providers accept a `url` but
always contacted their default one.
---
 zigpy/ota/providers.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/zigpy/ota/providers.py b/zigpy/ota/providers.py
index 23eab72..63085d1 100644
--- a/zigpy/ota/providers.py
+++ b/zigpy/ota/providers.py
@@ -390,6 +390,7 @@ class Ledvance(BaseOtaProvider):
 class Salus(BaseOtaProvider):
     NAME = "salus"
     MANUFACTURER_IDS = (4216, 43981)
+    DEFAULT_URL = "https://eu.salusconnect.io/demo/default/status/firmware"
 
     JSON_SCHEMA = json_schemas.SALUS_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -397,9 +398,7 @@ class Salus(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://eu.salusconnect.io/demo/default/status/firmware"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -424,6 +423,7 @@ class Salus(BaseOtaProvider):
 class Sonoff(BaseOtaProvider):
     NAME = "sonoff"
     MANUFACTURER_IDS = (4742,)
+    DEFAULT_URL = "https://zigbee-ota.sonoff.tech/releases/upgrade.json"
 
     JSON_SCHEMA = json_schemas.SONOFF_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -431,9 +431,7 @@ class Sonoff(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://zigbee-ota.sonoff.tech/releases/upgrade.json"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -454,6 +452,7 @@ class Sonoff(BaseOtaProvider):
 class Inovelli(BaseOtaProvider):
     NAME = "inovelli"
     MANUFACTURER_IDS = (4655,)
+    DEFAULT_URL = "https://files.inovelli.com/firmware/firmware-zha-v2.json"
 
     JSON_SCHEMA = json_schemas.INOVELLI_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -461,9 +460,7 @@ class Inovelli(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://files.inovelli.com/firmware/firmware-zha-v2.json"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -490,6 +487,7 @@ class Inovelli(BaseOtaProvider):
 class ThirdReality(BaseOtaProvider):
     NAME = "thirdreality"
     MANUFACTURER_IDS = (4659, 4877, 5127)
+    DEFAULT_URL = "https://tr-zha.s3.amazonaws.com/firmware.json"
 
     JSON_SCHEMA = json_schemas.THIRD_REALITY_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -497,7 +495,7 @@ class ThirdReality(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get("https://tr-zha.s3.amazonaws.com/firmware.json") as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
-- 
2.43.0


From 7a38bd9512816f50f86c3933266e680b1d53b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 72/87] fix: skip unreadable files in a folder of OTA images

A file that cannot be read, or vanishes while the folder is scanned, made all
of the other images unavailable.
---
 zigpy/ota/providers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zigpy/ota/providers.py b/zigpy/ota/providers.py
index 63085d1..c1f99ee 100644
--- a/zigpy/ota/providers.py
+++ b/zigpy/ota/providers.py
@@ -731,9 +731,8 @@ class AdvancedFileProvider(BaseOtaProvider):
                 if not path.is_file():
                     continue
 
-                data = await loop.run_in_executor(None, path.read_bytes)
-
                 try:
+                    data = await loop.run_in_executor(None, path.read_bytes)
                     image, _ = parse_ota_image(data)
                 except Exception as exc:  # noqa: BLE001
                     LOGGER.debug("Failed to parse image %s: %r", path, exc)
-- 
2.43.0


From 0639806345cb6a6bb4980a161f6fb3a16441362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 73/87] fix: do not offer images whose firmware header excludes
 the device

The constraints an index entry leaves open are read from the firmware but were
only considered once the image was cached.
---
 zigpy/ota/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 99480a7..9508f2c 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -469,7 +469,12 @@ class OTA:
                 _LOGGER.debug("Caching image %s", img)
                 self._image_cache[img.metadata] = img
 
-            upgrades[img.metadata] = img
+            # Constraints that are missing from the metadata are read from the firmware
+            if img.check_compatibility(device, query_cmd):
+                upgrades[img.metadata] = img
+            else:
+                _LOGGER.debug("Downloaded image is not compatible, ignoring: %s", img)
+                upgrades.pop(img.metadata)
 
         # As a final pass, identify images with identical versions and specificity but
         # differing contents
-- 
2.43.0


From a95ad78640d942f1e6d3cf0f067615af515511c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 74/87] fix: disconnect the radio when start-up is cancelled

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 2781a98..37414d1 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -235,7 +235,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         try:
             await self.connect()
             await self.initialize(auto_form=auto_form)
-        except Exception as e:  # noqa: BLE001
+        except (Exception, asyncio.CancelledError) as e:  # noqa: BLE001
             await self.shutdown(db=False)
 
             if isinstance(e, ConnectionError) or (
-- 
2.43.0


From 9882cd212b27d936095dba0331692fbb9b673ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 75/87] fix: close the database when the application could not
 be created

---
 zigpy/application.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 37414d1..bb05715 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -252,10 +252,15 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         """Create new instance of application controller."""
         app = cls(config)
 
-        await app._load_db()
+        try:
+            await app._load_db()
 
-        if start_radio:
-            await app.startup(auto_form=auto_form)
+            if start_radio:
+                await app.startup(auto_form=auto_form)
+        except (Exception, asyncio.CancelledError):
+            # Nobody else holds a reference to the application
+            await app._shutdown_db()
+            raise
 
         return app
 
@@ -445,13 +450,20 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except Exception:  # noqa: BLE001
             LOGGER.warning("Failed to disconnect from radio", exc_info=True)
 
-        if db and self._dblistener:
-            self._remove_db_listeners()
+        if db:
+            await self._shutdown_db()
 
-            try:
-                await self._dblistener.shutdown()
-            except Exception:  # noqa: BLE001
-                LOGGER.warning("Failed to disconnect from database", exc_info=True)
+    async def _shutdown_db(self) -> None:
+        """Disconnect from the database."""
+        if self._dblistener is None:
+            return
+
+        self._remove_db_listeners()
+
+        try:
+            await self._dblistener.shutdown()
+        except Exception:  # noqa: BLE001
+            LOGGER.warning("Failed to disconnect from database", exc_info=True)
 
     def add_device(self, ieee: t.EUI64, nwk: t.NWK) -> zigpy.device.Device:
         """Creates a zigpy `Device` object with the provided IEEE and NWK addresses."""
-- 
2.43.0


From ce8879703eea9683c72c0f98b82131ac08f257ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 76/87] fix: close the database even if its checkpoint fails

---
 zigpy/appdb.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 1d3afec..d478b82 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -204,12 +204,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if not self._worker_task.done():
             self._worker_task.cancel()
 
-        # Delete the journal on shutdown
-        await self._set_isolation_level(None)
-        await self.execute("PRAGMA wal_checkpoint;")
-        await self._set_isolation_level("DEFERRED")
-
-        await self._db.close()
+        try:
+            # Delete the journal on shutdown
+            await self._set_isolation_level(None)
+            await self.execute("PRAGMA wal_checkpoint;")
+            await self._set_isolation_level("DEFERRED")
+        finally:
+            await self._db.close()
 
         # FIXME: aiosqlite's thread won't always be closed immediately
         await asyncio.get_running_loop().run_in_executor(None, self._db.join)
-- 
2.43.0


From 2bb8c6ce320d39ebb8f6a5b5981cbb50264eed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 77/87] fix: stop the previous periodic OTA broadcasts when
 starting them again

---
 zigpy/ota/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 9508f2c..873e6ff 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -251,6 +251,7 @@ class OTA:
 
     def start_periodic_broadcasts(self, initial_delay: float, interval: float) -> None:
         """Start the periodic OTA broadcasts."""
+        self.stop_periodic_broadcasts()
         self._broadcast_loop_task = asyncio.create_task(
             self.broadcast_loop(
                 initial_delay=initial_delay,
-- 
2.43.0


From 57404ddffec96a2a2157b722944e4f243d14e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 78/87] fix: cancel background tasks on shutdown

---
 zigpy/application.py | 16 ++++++++++++++++
 zigpy/device.py      |  5 +++++
 zigpy/topology.py    |  5 +++++
 3 files changed, 26 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index bb05715..2b3f470 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -450,9 +450,25 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except Exception:  # noqa: BLE001
             LOGGER.warning("Failed to disconnect from radio", exc_info=True)
 
+        # Packets can still be received up to this point
+        self._cancel_background_tasks()
+
         if db:
             await self._shutdown_db()
 
+    def _cancel_background_tasks(self) -> None:
+        """Cancel everything that would otherwise keep using the radio."""
+        self.topology.cancel_scan()
+
+        for device in self.devices.values():
+            device.cancel_initialization()
+            device.cancel_group_membership_scan()
+
+        for task in self._tasks:
+            # Shutdown itself may run in one of the tasks
+            if task is not asyncio.current_task():
+                task.cancel()
+
     async def _shutdown_db(self) -> None:
         """Disconnect from the database."""
         if self._dblistener is None:
diff --git a/zigpy/device.py b/zigpy/device.py
index b88f993..3e7085a 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -183,6 +183,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         self._group_scan_task = asyncio.create_task(self.group_membership_scan())
         return self._group_scan_task
 
+    def cancel_group_membership_scan(self) -> None:
+        """Cancel the running group membership scan, if there is one."""
+        if self._group_scan_task is not None:
+            self._group_scan_task.cancel()
+
     async def group_membership_scan(self) -> None:
         """Sync up group membership."""
         for ep in self.non_zdo_endpoints:
diff --git a/zigpy/topology.py b/zigpy/topology.py
index 416a2c6..f8e9179 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -62,6 +62,11 @@ class Topology(zigpy.util.ListenableMixin):
         if self._scan_loop_task is not None:
             self._scan_loop_task.cancel()
 
+    def cancel_scan(self) -> None:
+        """Cancel the running scan, if there is one."""
+        if self._scan_task is not None:
+            self._scan_task.cancel()
+
     async def _scan_loop(self, period: float) -> None:
         """Delay scan by creating a task."""
 
-- 
2.43.0


From 4871d10fc7e958422839590fc287c7037ffb80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 79/87] fix: close the database when its initialization is
 cancelled

---
 zigpy/appdb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index d478b82..0231754 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -160,8 +160,12 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         try:
             await listener.initialize_tables()
-        except Exception:  # noqa: BLE001
-            await listener.shutdown()
+        except (Exception, asyncio.CancelledError):
+            try:
+                await listener.shutdown()
+            except Exception:  # noqa: BLE001
+                LOGGER.warning("Failed to disconnect from database", exc_info=True)
+
             raise
 
         listener.running = True
-- 
2.43.0


From 5fb52e1ba1dc15f99091e85f955b64e781332099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 80/87] fix: match structures that lack an optional nested
 structure

---
 zigpy/types/struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index 36c4fe6..89a7778 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -436,7 +436,7 @@ class Struct:
                 continue
 
             if isinstance(expected, Struct):
-                if not actual.matches(expected):
+                if actual is None or not actual.matches(expected):
                     return False
             elif actual != expected:
                 return False
-- 
2.43.0


From 0be04de3db21c433e8c1c4f4e7fa2b740fa670c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 81/87] fix: hash packets consistently with their equality

---
 zigpy/types/named.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/types/named.py b/zigpy/types/named.py
index ddd170f..10d1084 100644
--- a/zigpy/types/named.py
+++ b/zigpy/types/named.py
@@ -623,14 +623,14 @@ class ZigbeePacket(BaseDataclassMixin):
     rssi: basic.int8s | None = dataclasses.field(default=None)
 
     def __hash__(self) -> int:
+        # Equality ignores the timestamp
         return hash(
             (
-                self.timestamp,
                 self.src,
                 self.src_ep,
                 self.dst,
                 self.dst_ep,
-                self.source_route,
+                tuple(self.source_route) if self.source_route is not None else None,
                 self.extended_timeout,
                 self.tsn,
                 self.profile_id,
-- 
2.43.0


From de6ad9cf363489d73887207346dbf2b3b351a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 82/87] fix: do not share the battery backup flag between power
 source values

---
 zigpy/zcl/clusters/general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/clusters/general.py b/zigpy/zcl/clusters/general.py
index 846cd35..480d0a4 100644
--- a/zigpy/zcl/clusters/general.py
+++ b/zigpy/zcl/clusters/general.py
@@ -36,7 +36,12 @@ class PowerSource(t.enum8):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[bytes, bytes]:
         val, data = t.uint8_t.deserialize(data)
-        r = cls(val & 0x7F)
+        member = cls(val & 0x7F)
+
+        # Enum members are shared, the flag belongs only to this value
+        r = cls._member_type_.__new__(cls, member.value)
+        r._name_ = member.name
+        r._value_ = member.value
         r.battery_backup = bool(val & 0x80)
         return r, data
 
-- 
2.43.0


From 39de81a4197674e8266e4b832817ee413a5c99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 83/87] fix: represent undefined members of enums with a custom
 integer format

---
 zigpy/types/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 4c6c594..5662b5b 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -489,7 +489,7 @@ def enum_factory(int_type: CALLABLE_T, undefined: str = "undefined") -> CALLABLE
                 name = f"{undefined}_{new._bin_repr()}"
 
             new._name_ = name.format(value)
-            new._value_ = value
+            new._value_ = cls._member_type_(value)
             return new
 
         def __format__(self, format_spec: str) -> str:
-- 
2.43.0


From 858864d1961c33ce5e07311cb28e91344536387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 84/87] fix: correct the invalid values of the 64-bit integers
 and the 16-bit enumeration

The values standing for "no valid value" span all the bytes of their type:
uint64 and int64 were short of one byte and enum16 used that of enum8.
---
 zigpy/zcl/foundation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index bfddd4e..6ddac7b 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -406,7 +406,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.uint64_t,
         DataClass.Analog,
         "Unsigned 64-bit integer",
-        t.uint64_t(0xFFFFFFFFFFFFFF),
+        t.uint64_t(0xFFFFFFFFFFFFFFFF),
     )
     int8 = (
         DataTypeId.int8,
@@ -462,7 +462,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.int64s,
         DataClass.Analog,
         "Signed 64-bit integer",
-        t.int64s(-0x80000000000000),
+        t.int64s(-0x8000000000000000),
     )
     enum8 = (
         DataTypeId.enum8,
@@ -476,7 +476,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.enum16,
         DataClass.Discrete,
         "16-bit enumeration",
-        t.enum16(0xFF),
+        t.enum16(0xFFFF),
     )
     semi = (
         DataTypeId.semi,
-- 
2.43.0


From f2750913ff299877c4ad8d36d7c2f7a2c300710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 85/87] fix: treat a refused energy scan as unsupported

A coordinator refusing the scan (an unsuccessful status, with or without the
remaining fields) made starting up fail with an unrelated exception.
---
 zigpy/application.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 2b3f470..25c93d3 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -276,12 +276,18 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                     ScanCount=count,
                 )
             )
-        except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
+            status, scanned_channels, _, _, energy_values = rsp
+
+            if status != zdo_types.Status.SUCCESS:
+                raise zigpy.exceptions.DeliveryError(f"Scan was refused: {status!r}")
+        except (
+            asyncio.TimeoutError,
+            zigpy.exceptions.DeliveryError,
+            zigpy.exceptions.ParsingError,
+        ):
             LOGGER.warning("Coordinator does not support energy scanning")
             scanned_channels = list(channels)
             energy_values = [0] * len(scanned_channels)
-        else:
-            _, scanned_channels, _, _, energy_values = rsp
 
         return dict(zip(scanned_channels, energy_values))
 
-- 
2.43.0


From 3b911b0ed6ed1739fbd618cc5e9f7a3483030668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 86/87] fix: name the right command in the result of
 manufacturer-specific group commands

---
 zigpy/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index 4ce20fb..3acab2e 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -77,11 +77,13 @@ class Group(ListenableMixin, dict):
             )
         )
 
+        hdr, _ = foundation.ZCLHeader.deserialize(data)
+
         return foundation.GENERAL_COMMANDS[
             foundation.GeneralCommand.Default_Response
         ].schema(
             status=foundation.Status.SUCCESS,
-            command_id=data[2],
+            command_id=hdr.command_id,
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From f3e94e1030dff5eaa823a218921379f6dd90e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:23 +0000
Subject: [PATCH 87/87] fix: cancel the group membership scan of a removed
 device

A scan that was still running when the device was forgotten kept on sending
requests to it and added it back to the groups it answered with.
---
 zigpy/application.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 25c93d3..6173115 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -576,8 +576,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except Exception as ex:  # noqa: BLE001
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
-        # Packets received in the meantime may have restarted initialization
+        # Packets received in the meantime may have restarted these
         device.cancel_initialization()
+        device.cancel_group_membership_scan()
         self.devices.pop(device.ieee, None)
         self._devices_being_removed.discard(device)
         self.topology.neighbors.pop(device.ieee, None)
-- 
2.43.0

