From a503740f53a6a853b8b8f02aff7555eb33034779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 01/60] fix: compose reserved fields from their own size, not
 from a namesake's value

---
 pyzwave/message.py | 7 ++++++-
 pyzwave/types.py   | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 2e75928..34511b9 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -1,6 +1,6 @@
 import logging
 
-from pyzwave.types import BitStreamReader, BitStreamWriter
+from pyzwave.types import BitStreamReader, BitStreamWriter, ReservedBase
 from pyzwave.util import AttributesMixin
 
 _LOGGER = logging.getLogger(__name__)
@@ -25,6 +25,11 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
+            if issubclass(attrType, ReservedBase):
+                # Always sent as zero. The name is not unique, so the stored value
+                # might belong to another reserved field with a different size.
+                attrType(0).serialize(stream)
+                continue
             if name not in self._attributes:
                 default = getattr(attrType, "default", None)
                 if default is not None:
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..a01600a 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -320,13 +320,18 @@ class float_t(float):  # pylint: disable=invalid-name
         return (value, size, scale)
 
 
+class ReservedBase(BitsBase):
+    """Base type for reserved bits"""
+
+    default = 0
+
+
 def reserved_t(size):  # pylint: disable=invalid-name
     """Return the type for bits that are reserved and must not be used"""
     # pylint: disable=redefined-outer-name
-    class reserved_t(BitsBase):  # pylint: disable=invalid-name
+    class reserved_t(ReservedBase):  # pylint: disable=invalid-name
         """Type for when the bits are reserved and must not be used"""
 
-        default = 0
         sizeBits = size
 
     return reserved_t
-- 
2.43.0


From 4bf866363553460e3044c7bd75ecbae67de87239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 02/60] fix: write the length of the encapsulated command in
 SUPERVISION_GET

---
 pyzwave/commandclass/Supervision.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Supervision.py b/pyzwave/commandclass/Supervision.py
index fb16621..174010d 100644
--- a/pyzwave/commandclass/Supervision.py
+++ b/pyzwave/commandclass/Supervision.py
@@ -1,5 +1,12 @@
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bits_t, flag_t, reserved_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bits_t,
+    flag_t,
+    reserved_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 
 
@@ -23,6 +30,12 @@ class Get(Message):
         ("command", Message),
     )
 
+    def compose_command(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the length prefixed command"""
+        command = self.command.compose()
+        stream.addBytes(len(command), 1, False)
+        stream.extend(command)
+
     @staticmethod
     def parse_command(stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-- 
2.43.0


From a7ea1ef3d66029e742209bc7424409fd457af25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 03/60] fix: decode nodes 225 to 232 in node lists

---
 pyzwave/commandclass/NetworkManagementProxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..d841d4d 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -37,7 +37,10 @@ class NodeList(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        for i in range(29):
+            if i == 28 and stream.bytesLeft() == 0:
+                # The last byte, nodes 225-232, has been left out
+                break
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From b9826283c4b6452e2e38c29b4e0ccf0a47f620b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 04/60] fix: decode all bytes of the supported sensors mask,
 and sensor types not known

---
 pyzwave/commandclass/SensorMultilevel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..efa4147 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,11 +56,15 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-                supported.add(SensorType(i))
+                try:
+                    supported.add(SensorType(i))
+                except ValueError:
+                    # Not a type known to us, keep the raw number
+                    supported.add(i)
             value >>= 1
             i += 1
         return supported
-- 
2.43.0


From d74ec1242ce6e9142ad4a1989d0277536d3b15f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 05/60] fix: decode CONFIGURATION_SET

---
 pyzwave/commandclass/Configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..285debe 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -107,6 +107,10 @@ class Set(Message):
         """Write the value to the bitstream. The value is variable size"""
         stream.addBytes(self.value, self.size, False)
 
+    def parse_value(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Decode the value. The value is variable size"""
+        return int.from_bytes(stream.value(self.size), "big", signed=False)
+
 
 class ConfigurationValue(DictAttribute):
     """Helper class for holding one configuration value"""
-- 
2.43.0


From a6d5997da3ef0221710f3b1fd474d2696a307cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 06/60] fix: report a missing endpoint in association nodes as
 end of data

---
 pyzwave/commandclass/Association.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1482e51..608bd93 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -85,6 +85,8 @@ class Nodes(list):
                 break
             nodes.append((node, None))
         while data:
+            if len(data) < 2:
+                raise EOFError("Tried to read past end of data")
             node = data[0]
             endpoint = data[1]
             nodes.append((node, endpoint))
-- 
2.43.0


From 228a70dd29264b2711210ea16b22d434bdb6cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 07/60] fix: accept Z/IP header extensions with options not
 decoded

---
 pyzwave/commandclass/Zip.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..bc5a895 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -169,6 +169,9 @@ class ZIPPacketOption(AttributesMixin):
         elif self.optionType == ZIPPacketOptionType.EXPECTED_DELAY:
             clsType = ZIPPacketOptionExpectedDelay
         cls = clsType()
+        if clsType is ZIPPacketOptionData:
+            # No decoder for this option
+            return cls
         if hasattr(cls, "parseAttributes"):
             cls.parseAttributes(BitStreamReader(data))
         elif hasattr(cls, "__setstate__"):
@@ -204,6 +207,11 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
             option.parseAttributes(reader)
+            if not option.critical and option.optionType not in list(
+                ZIPPacketOptionType
+            ):
+                # Unknown options that are not critical must be ignored
+                continue
             retval[option.optionType] = option.optionData
         return retval
 
-- 
2.43.0


From 08d70e01a4f07335d71422923836a8c8bda07e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 08/60] fix: skip unknown values in Z/IP maintenance reports

---
 pyzwave/commandclass/Zip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index bc5a895..59eab1e 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -116,9 +116,13 @@ class ZIPPacketOptionMaintenanceReport(
         """Deserialize ZIP Maintenance Report"""
         retval = {}
         while stream.bytesLeft():
-            imeType = IMEType(stream.byte())
+            imeType = stream.byte()
             length = stream.byte()
             imeVal = stream.value(length)
+            if imeType not in list(IMEType):
+                # Not known to us, go on with the next one
+                continue
+            imeType = IMEType(imeType)
             typeCls = IME_MAPPING.get(imeType, IMEUnknownValue)
             retval[imeType] = typeCls.load(BitStreamReader(imeVal))
         return retval
-- 
2.43.0


From 805d59bc18dd74ef432fd5208977801d8164979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 09/60] fix: give every request for a report a session of its
 own

Requests waiting for the same kind of report shared one session, so a timeout
of one cancelled the others, and a session was left behind when sending failed
and swallowed the next report. A report arriving before the acknowledgement of
a node command was lost.
---
 pyzwave/adapter.py |  7 +++++--
 pyzwave/node.py    | 15 +++++++++------
 pyzwave/util.py    | 27 +++++++++++++++++----------
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..db6764e 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -211,8 +211,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..80784b6 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,15 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        session = self.addWaitingSession(waitFor)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @contextmanager
     def storageLock(self):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..8de6bae 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -174,21 +174,25 @@ class MessageWaiter:
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it
         """
-        hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        self._sessions.setdefault(msgType.hid(), []).append(session)
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
-            session.set_result(message)
-            return True
+        for session in self._sessions.get(message.hid(), ()):
+            # Every session is waiting for a message of its own
+            if not session.done():
+                session.set_result(message)
+                return True
         return False
 
+    def removeWaitingSession(self, msgType, session):
+        """Remove a session added with addWaitingSession"""
+        sessions = self._sessions.get(msgType.hid(), [])
+        if session in sessions:
+            sessions.remove(session)
+
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
         if not session:
@@ -196,8 +200,11 @@ class MessageWaiter:
         try:
             await asyncio.wait_for(session, timeout)
         except asyncio.TimeoutError:
+            if session.done() and not session.cancelled():
+                # Received in the very last moment
+                return session.result()
             _LOGGER.warning("Timeout waiting for message %s", msgType)
             raise
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            self.removeWaitingSession(msgType, session)
         return session.result()
-- 
2.43.0


From 64f6f8b0bffe25ea1f6071dc4714b0665b166d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 10/60] fix: always forget an ack when the wait for it ends

A cancelled wait left the ack behind, and the sequence number could not be used
again. An ack received at the very moment of the timeout raised KeyError.
---
 pyzwave/adapter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index db6764e..a4ffd26 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -236,5 +236,8 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            # Still there if the wait timed out or was cancelled
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From 7f99233ee7877c139319e84d49c9ef27e5bfe237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 11/60] fix: skip sequence numbers still waiting for an ack

Commands to sleeping nodes may stay unacknowledged while 256 other commands are
sent. Reusing the number raised and could mix up the acks.
---
 pyzwave/zipconnection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..de0ab96 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -139,6 +139,9 @@ class ZIPConnection(Adapter):
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
         self._seq = (self._seq + 1) & 0xFF
+        while self._seq in self._ackQueue and len(self._ackQueue) < 0x100:
+            # Still waiting for the ack of a command to a sleeping node
+            self._seq = (self._seq + 1) & 0xFF
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From 377db4f18af746fc0a727db61c59ef3415b2accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 12/60] fix: wrap the network management sequence number

It is sent as one byte; after 255 commands composing raised OverflowError.
---
 pyzwave/zipgateway.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..9948fac 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,7 +32,7 @@ class ZIPGateway(ZIPConnection):
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -48,7 +48,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
@@ -61,7 +61,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -75,7 +75,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
@@ -106,7 +106,7 @@ class ZIPGateway(ZIPConnection):
         return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -117,7 +117,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -133,7 +133,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -150,7 +150,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -166,7 +166,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -206,7 +206,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -221,7 +221,7 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
@@ -233,7 +233,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
-- 
2.43.0


From 24e4ba671603229022204af6b88c185feee247e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 13/60] fix: accept a queued ack that ends before the header
 extension

The default for the header extension was a plain dict without expectedDelay.
---
 pyzwave/commandclass/Zip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 59eab1e..59b1069 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -220,6 +220,9 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         return retval
 
 
+HeaderExtension.default = HeaderExtension()
+
+
 @ZWaveMessage(COMMAND_CLASS_ZIP, COMMAND_ZIP_KEEP_ALIVE)
 class ZipKeepAlive(Message):
     """
-- 
2.43.0


From 8f82f4a72b2f392c29f554cbfc73b93977c34417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 14/60] fix: ignore datagrams that cannot be decoded or carry
 no command

Such packets raised into the event loop, from the unsolicited port and, for a
packet announcing a command it does not have, from the other connections.
---
 pyzwave/zipconnection.py | 2 +-
 pyzwave/zipgateway.py    | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index de0ab96..d0e5b40 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -99,7 +99,7 @@ class ZIPConnection(Adapter):
             if zipPkt.ackRequest:
                 _LOGGER.error("This message needs an ack response. Not implemented")
                 return False
-            if zipPkt.zwCmdIncluded:
+            if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
             if zipPkt.ackResponse:
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 9948fac..fbd1714 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -263,7 +263,14 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode unsolicited message: %s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket) or zipPkt.command is None:
+            _LOGGER.warning("Ignoring unsolicited message without command: %s", zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
-- 
2.43.0


From 133fdb2185f4c98f6597797e207776267e4c19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 15/60] fix: ignore truncated supervision messages

---
 pyzwave/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 80784b6..c696ec1 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -27,6 +27,9 @@ def supervision(func):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
         # Handle supervision calls
+        if message.command is None:
+            # Truncated message
+            return False
         if await func(self, message.command, flags):
             await self.send(
                 Supervision.Report(
-- 
2.43.0


From 9a5dbcf35c68f1925ed0532f19c969ddc4361715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 16/60] fix: accept node information ending in 0xF1

---
 pyzwave/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index c696ec1..624ea89 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -88,7 +88,8 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            mark = cmdClasses[i + 1] if i + 1 < len(cmdClasses) else None
+            if cmdClass == 0xF1 and mark == 0x00:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From 3a6cc066fd6027f7d98fce64b2ba91ad581bde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 17/60] fix: keep changes when storage locks are nested

The inner lock discarded the changes made so far under the outer one, and
unlocked the storage while the outer lock was still held.
---
 pyzwave/node.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 624ea89..5144c88 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -75,6 +75,8 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        # Number of locks currently held, the outermost one stores the changes
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -277,13 +279,18 @@ class Node(Listenable, MessageWaiter):
                 node.interview()
             # The storage will happen here, only once
         """
+        self._storageLocks += 1
         try:
-            self._storageStatus = StorageStatus.LOCKED_CLEAN
+            if self._storageStatus == StorageStatus.CLEAN:
+                self._storageStatus = StorageStatus.LOCKED_CLEAN
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if self._storageLocks == 0:
+                dirty = self._storageStatus == StorageStatus.LOCKED_DIRTY
+                self._storageStatus = StorageStatus.CLEAN
+                if dirty:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From 25aa1f898d02d3dac19baa33fc0593ef5167fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 18/60] fix: a failing asynchronous listener does not fail
 ask()

The results of the other listeners were lost and the error reached the speaker,
unlike for listeners that are not asynchronous.
---
 pyzwave/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 8de6bae..ade3123 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -136,7 +136,16 @@ class Listenable:
         Send message to listeners and wait for the listeners to respond.
         This a shorthand for awaiting thre result from speak()
         """
-        return await asyncio.gather(*self.speak(message, *args))
+        retval = []
+        for result in await asyncio.gather(
+            *self.speak(message, *args), return_exceptions=True
+        ):
+            if isinstance(result, BaseException):
+                # Same as for listeners that are not async, see speak()
+                _LOGGER.warning("Error calling listener.%s: %s", message, result)
+                continue
+            retval.append(result)
+        return retval
 
     def speak(self, message, *args) -> list:
         """
-- 
2.43.0


From e27183c6eb98f9b822133472917076d72dc0e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 19/60] fix: deliver mailbox entries in order and keep those
 not delivered

The newest entry was delivered first, and an entry whose delivery failed was
lost while its heartbeats went on.
---
 pyzwave/mailbox.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..39553e8 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -98,16 +98,22 @@ class MailboxService:
                     queueHandle=queueHandle,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop()
-        ret = await self._adapter.sendToNode(
-            nodeId,
-            Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
-                operation=Mailbox.Queue.Operation.POP,
-                queueHandle=queueHandle,
-                mailboxEntry=queueItem.data,
-            ),
-        )
+        queueItem = self._queue[queueHandle].pop(0)
+        ret = False
+        try:
+            ret = await self._adapter.sendToNode(
+                nodeId,
+                Mailbox.Queue(
+                    last=len(self._queue[queueHandle]) == 0,
+                    operation=Mailbox.Queue.Operation.POP,
+                    queueHandle=queueHandle,
+                    mailboxEntry=queueItem.data,
+                ),
+            )
+        finally:
+            if not ret:
+                # Not delivered, keep it for the next time
+                self._queue[queueHandle].insert(0, queueItem)
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
             queueItem.stop()
-- 
2.43.0


From 996e81ac557dca83bba9e2848a93677a92e6707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 20/60] fix: queue mailbox entries pushed at the same time once
 and in order

The entry was queued after its announcement was acknowledged, so the same message
pushed again meanwhile was queued twice, and the order followed the acks.
---
 pyzwave/mailbox.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 39553e8..871b338 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -24,6 +24,7 @@ class QueueItem:
         self._handle = handle
         self._data = data
         self._task = None
+        self._stopped = False
 
     @property
     def checksum(self) -> int:
@@ -43,10 +44,14 @@ class QueueItem:
 
     def start(self):
         """Start the task for sending heartbeats to the mailbox proxy"""
+        if self._stopped:
+            # Already delivered
+            return
         self._task = asyncio.ensure_future(self._runner())
 
     def stop(self):
         """Stop sending heartbeats"""
+        self._stopped = True
         if self._task:
             self._task.cancel()
 
@@ -126,18 +131,24 @@ class MailboxService:
             if item.checksum == checksum:
                 # Message has already been queueud
                 return False
-        ret = await self._adapter.sendToNode(
-            nodeId,
-            Mailbox.Queue(
-                last=False,
-                operation=Mailbox.Queue.Operation.WAITING,
-                queueHandle=queueHandle,
-                mailboxEntry=message,
-            ),
-        )
+        # Add it already now, the same or another message may be pushed while sending
+        self._queue[queueHandle].append(queueItem)
+        ret = False
+        try:
+            ret = await self._adapter.sendToNode(
+                nodeId,
+                Mailbox.Queue(
+                    last=False,
+                    operation=Mailbox.Queue.Operation.WAITING,
+                    queueHandle=queueHandle,
+                    mailboxEntry=message,
+                ),
+            )
+        finally:
+            if not ret and queueItem in self._queue[queueHandle]:
+                self._queue[queueHandle].remove(queueItem)
         if ret:
             queueItem.start()
-            self._queue[queueHandle].append(queueItem)
         return ret
 
     async def messageReceived(
-- 
2.43.0


From 4515d3b1a018d3c7ed2b90b38bf2e53f7a0501dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 21/60] fix: go on with mailbox heartbeats after a timeout

Resolving the address of the node may time out, which ended the heartbeats.
---
 pyzwave/mailbox.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 871b338..5f67f1d 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -63,15 +63,18 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
-                self._nodeId,
-                Mailbox.Queue(
-                    last=False,
-                    operation=operation,
-                    queueHandle=self._handle,
-                    mailboxEntry=self._data,
-                ),
-            )
+            try:
+                await self._adapter.sendToNode(
+                    self._nodeId,
+                    Mailbox.Queue(
+                        last=False,
+                        operation=operation,
+                        queueHandle=self._handle,
+                        mailboxEntry=self._data,
+                    ),
+                )
+            except asyncio.TimeoutError:
+                _LOGGER.warning("Timeout sending heartbeat to node %s", self._nodeId)
 
 
 class MailboxService:
-- 
2.43.0


From 554fba7adf35bd82c807f2bec2d7ab5d28f8def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 22/60] fix: only use the address of the node asked for

When several addresses were resolved at the same time, or an advertisement for
another node arrived, a node got the address of another one.
---
 pyzwave/util.py       | 14 +++++++-------
 pyzwave/zipgateway.py |  8 +++++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index ade3123..a12c3a0 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -178,20 +178,21 @@ class MessageWaiter:
         super().__init__()
         self._sessions = {}
 
-    def addWaitingSession(self, msgType):
+    def addWaitingSession(self, msgType, match=None):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
-        a race condition where the message is received before we wait for it
+        a race condition where the message is received before we wait for it.
+        If match is supplied, only messages it returns True for are waited for.
         """
         session = asyncio.get_event_loop().create_future()
-        self._sessions.setdefault(msgType.hid(), []).append(session)
+        self._sessions.setdefault(msgType.hid(), []).append((session, match))
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        for session in self._sessions.get(message.hid(), ()):
+        for session, match in self._sessions.get(message.hid(), ()):
             # Every session is waiting for a message of its own
-            if not session.done():
+            if not session.done() and (match is None or match(message)):
                 session.set_result(message)
                 return True
         return False
@@ -199,8 +200,7 @@ class MessageWaiter:
     def removeWaitingSession(self, msgType, session):
         """Remove a session added with addWaitingSession"""
         sessions = self._sessions.get(msgType.hid(), [])
-        if session in sessions:
-            sessions.remove(session)
+        sessions[:] = [entry for entry in sessions if entry[0] is not session]
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index fbd1714..dbc4b75 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -199,8 +199,14 @@ class ZIPGateway(ZIPConnection):
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
+        # Advertisements for other nodes may arrive as well
+        session = self.addWaitingSession(
+            ZipND.ZipNodeAdvertisement, lambda response: response.nodeId == nodeId
+        )
         self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
+        response = await self.waitForMessage(
+            ZipND.ZipNodeAdvertisement, session=session, timeout=3
+        )
         return response.ipv6
 
     async def removeFailedNode(
-- 
2.43.0


From 46175c82f1d4023eaf9fc2f14d27a0f6ee5f2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 23/60] fix: open only one connection to a node

Commands sent at the same time to a node not connected yet opened one connection
each, and what arrived on all but the last one was dropped.
---
 pyzwave/zipgateway.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index dbc4b75..2c3a3dd 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connectLocks = {}
         self._nodes = {}
         self._nmSeq = 0
 
@@ -97,13 +98,17 @@ class ZIPGateway(ZIPConnection):
         if nodeId in self._connections:
             return self._connections[nodeId]
 
-        ipv6 = await self.ipOfNode(nodeId)
-
-        connection = ZIPConnection(ipv6.compressed, self.psk)
-        connection.addListener(self)
-        await connection.connect()
-        self._connections[nodeId] = connection
-        return connection
+        async with self._connectLocks.setdefault(nodeId, asyncio.Lock()):
+            if nodeId in self._connections:
+                # Someone else connected while we were waiting
+                return self._connections[nodeId]
+            ipv6 = await self.ipOfNode(nodeId)
+
+            connection = ZIPConnection(ipv6.compressed, self.psk)
+            connection.addListener(self)
+            await connection.connect()
+            self._connections[nodeId] = connection
+            return connection
 
     async def getFailedNodeList(self) -> list:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
-- 
2.43.0


From 56c583537e4acb3880e9b309543932390dbafd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 24/60] fix: report network management commands the gateway did
 not acknowledge

send() returns False on a timeout and does not raise.
---
 pyzwave/zipgateway.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 2c3a3dd..e2591f7 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -41,7 +41,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -54,7 +55,8 @@ class ZIPGateway(ZIPConnection):
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -70,7 +72,8 @@ class ZIPGateway(ZIPConnection):
             grantedKeys=grantedKeys,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -83,7 +86,8 @@ class ZIPGateway(ZIPConnection):
             txOptions=TxOptions.NULL,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -238,7 +242,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -250,7 +255,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
-- 
2.43.0


From f0b7715bcb6b58dfb6e0545db117c4b58fb2380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 25/60] fix: handle all nodes of a node list when one of them
 does not answer

A node not answering the address request ended the handling of the list, and of
connecting to the gateway. A report received meanwhile could bring back nodes
already removed.
---
 pyzwave/zipgateway.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index e2591f7..f826135 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -191,6 +191,9 @@ class ZIPGateway(ZIPConnection):
         self, report: NetworkManagementProxy.NodeListReport
     ):
         """Update nodes from a nodeListReport"""
+        if report.nodes is None:
+            # Truncated report
+            return
         # Find removed nodes
         for nodeId in list(self._nodes.keys()):
             if nodeId in report.nodes:
@@ -198,13 +201,25 @@ class ZIPGateway(ZIPConnection):
             del self._nodes[nodeId]
 
         # Find new nodes
-        for nodeId in report.nodes:
-            if nodeId in self._nodes:
-                continue
+        newNodes = [nodeId for nodeId in report.nodes if nodeId not in self._nodes]
+        for nodeId in newNodes:
+            self._nodes[nodeId] = {}
+        for nodeId in newNodes:
             # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+            await self.__updateIpOfNode__(nodeId)
         self.speak("nodeListUpdated")
 
+    async def __updateIpOfNode__(self, nodeId):
+        """Retrieve and store the ip of a node in the node list"""
+        try:
+            ipv6 = await self.ipOfNode(nodeId)
+        except asyncio.TimeoutError:
+            _LOGGER.warning("Could not get the ip of node %s", nodeId)
+            return
+        if nodeId in self._nodes:
+            # Not removed in the meantime
+            self._nodes[nodeId] = {"ip": ipv6}
+
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
@@ -352,5 +367,5 @@ class ZIPGateway(ZIPConnection):
         )
         # Retrieve node list, and get ip-addresses
         for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+            if nodeId in self._nodes and not self._nodes[nodeId].get("ip"):
+                await self.__updateIpOfNode__(nodeId)
-- 
2.43.0


From 6cdbe413297a960f919f75268523e72f8d3e5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 26/60] fix: acknowledge unsolicited node list reports when
 requested

---
 pyzwave/zipgateway.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index f826135..95dc958 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -307,6 +307,9 @@ class ZIPGateway(ZIPConnection):
         sourceEP = zipPkt.sourceEP
 
         if isinstance(zipPkt.command, NetworkManagementProxy.NodeListReport):
+            if zipPkt.ackRequest:
+                ackReponse = zipPkt.response(success=True)
+                self._unsolicitedConnection.sendTo(ackReponse.compose(), address)
             return asyncio.ensure_future(self.__handleNodeListReport__(zipPkt.command))
 
         # Find the node this was from
-- 
2.43.0


From 948f7621866e37af2875c319349d23f47a24f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 27/60] fix: keep native values when saving attributes

---
 pyzwave/commandclass/CommandClass.py |  4 ++--
 pyzwave/util.py                      | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..a00d7af 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -2,7 +2,7 @@ import asyncio
 import logging
 from typing import Dict, Any
 
-from pyzwave.util import AttributesMixin, Listenable
+from pyzwave.util import AttributesMixin, Listenable, getState
 from pyzwave.commandclass import ZWaveCommandClass
 from pyzwave.message import Message
 
@@ -42,7 +42,7 @@ def VarDictAttribute(KeyType, ValueType):  # pylint: disable=invalid-name
             return "{}:\n{}".format(self.__class__.__name__, "\n".join(attrs))
 
         def __getstate__(self):
-            return {i: value.__getstate__() for i, value in self.items()}
+            return {i: getState(value) for i, value in self.items()}
 
         def __setitem__(self, name, value):
             if isinstance(value, ValueType):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index a12c3a0..1b3277e 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -10,6 +10,17 @@ from pyzwave.types import BitStreamReader
 _LOGGER = logging.getLogger(__name__)
 
 
+def getState(value):  # pylint: disable=invalid-name
+    """
+    Returns the state of an attribute value. Native types, such as int and list, are
+    their own state. From Python 3.11 they do have a __getstate__, but it returns None.
+    """
+    default = getattr(object, "__getstate__", None)
+    if getattr(type(value), "__getstate__", default) is default:
+        return value
+    return value.__getstate__()
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -78,13 +89,7 @@ class AttributesMixin:
         return self._attributes.get(name)
 
     def __getstate__(self) -> Dict[str, Any]:
-        values = {}
-        for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
-                values[attr] = value.__getstate__()
-            else:
-                values[attr] = value
-        return values
+        return {attr: getState(value) for attr, value in self._attributes.items()}
 
     def __setattr__(self, name, value):
         for attr in getattr(self, "attributes"):
-- 
2.43.0


From 3414659af81bc5324f8258244a47e37e9dd2189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 28/60] fix: restore the interviewed flag from yaml

---
 pyzwave/commandclass/CommandClass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index a00d7af..dc9d23f 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -201,7 +201,8 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        # All scalars are strings when loaded from yaml
+        self._interviewed = str(state.get("interviewed", False)).lower() == "true"
         super().__setstate__(state)
 
     @staticmethod
-- 
2.43.0


From d104f4d5897681bcfa78b080433bf6388e6ac94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 29/60] fix: restore the commands of association groups as
 numbers

---
 pyzwave/commandclass/AssociationGrpInfo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..f7073b2 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -34,6 +34,12 @@ class Group(DictAttribute):
         ("commands", list),
     )
 
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        if "commands" in state:
+            # All scalars are strings when loaded from yaml
+            self.commands = [[int(x) for x in command] for command in state["commands"]]
+
 
 class Groupings(dict):
     """Helper class for storing association groups"""
-- 
2.43.0


From 1e59947bcfa8bce5719fc26a13d9267412ae3acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 30/60] fix: only use the version report for the command class
 asked for

---
 pyzwave/commandclass/CommandClass.py | 1 +
 pyzwave/node.py                      | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index dc9d23f..4f3b7d2 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -162,6 +162,7 @@ class CommandClass(AttributesMixin, Listenable):
             answer = await self._node.sendAndReceive(
                 Version.VersionCommandClassGet(requestedCommandClass=self.id),
                 Version.VersionCommandClassReport,
+                match=lambda report: report.requestedCommandClass == self.id,
             )
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
diff --git a/pyzwave/node.py b/pyzwave/node.py
index 5144c88..50128d4 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -247,10 +247,13 @@ class Node(Listenable, MessageWaiter):
         )
 
     async def sendAndReceive(
-        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+        self, cmd: Message, waitFor: Message, timeout: int = 3, match=None, **kwargs
     ) -> Message:
-        """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        """
+        Send a message and wait for the response. If match is supplied, only messages
+        it returns True for are responses.
+        """
+        session = self.addWaitingSession(waitFor, match)
         try:
             retval = await self.send(cmd, **kwargs)
             if not retval:
-- 
2.43.0


From 29b8d270a18c86585ad1c815046bdb9f09db5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 31/60] fix: only return the value of the configuration
 parameter asked for

---
 pyzwave/commandclass/Configuration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 285debe..84cc955 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -139,7 +139,11 @@ class Configuration(CommandClass):
         """Request configuration value from node. Return the cached value if it is already known."""
         if cached and number in self.parameters:
             return self.parameters[number].value
-        report: Report = await self.sendAndReceive(Get(parameterNumber=number), Report)
+        report: Report = await self.sendAndReceive(
+            Get(parameterNumber=number),
+            Report,
+            match=lambda report: report.parameterNumber == number,
+        )
         return report.value
 
     async def set(self, parameterNumber: int, size: Size, value: int) -> bool:
-- 
2.43.0


From c94deb1a81b2c6ce2cfdf19158fdbe4f202665fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 32/60] fix: read association groups spread over several
 reports

---
 pyzwave/commandclass/Association.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 608bd93..b0bdb47 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -147,20 +147,32 @@ class Association(CommandClass):
     async def interviewGrouping(self, groupingIdentifier):
         """Interview an association group"""
         group = self.groupings[groupingIdentifier]
+        # The nodes may be spread over several reports
+        nodes = []
+
+        def isLastReport(report):
+            if report.groupingIdentifier != groupingIdentifier:
+                return False
+            nodes.extend(report.nodes)
+            return not report.reportsToFollow
+
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
+                match=isLastReport,
             )
         else:
             report = await self.sendAndReceive(
-                Get(groupingIdentifier=groupingIdentifier), Report
+                Get(groupingIdentifier=groupingIdentifier),
+                Report,
+                match=isLastReport,
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
             return
         group.maxNodes = report.maxNodesSupported
-        group.nodes = report.nodes
+        group.nodes = nodes or report.nodes
 
     async def setupLifeLine(self, groupingIdentifier=1):
         """Setup the lifeline association group"""
-- 
2.43.0


From 6ec630240105cbe50dfbf2480e91d94a02121a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 33/60] fix: ignore command lists of unknown association groups

---
 pyzwave/commandclass/AssociationGrpInfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index f7073b2..fa9d178 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -176,6 +176,8 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if report.groupingIdentifier not in self.groupings:
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
         return True
 
-- 
2.43.0


From 10fdddf03d9855abe9aa3f046fc5100f2da34da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 34/60] fix: compare bit values with each other by value

---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index a01600a..8596ea1 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -215,6 +215,8 @@ class BitsBase:
         self._value = int(value)
 
     def __eq__(self, other):
+        if isinstance(other, BitsBase):
+            other = int(other)
         return self._value.__eq__(other)
 
     def __int__(self):
-- 
2.43.0


From 76a1f65ff3da72522dbf39b22f3739c537def6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 35/60] fix: only use the scales reported for the sensor asked
 for

---
 pyzwave/commandclass/SensorMultilevel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index efa4147..778caa4 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -185,6 +185,8 @@ class SensorMultilevel(CommandClass):
         )
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
-                SupportedGetScale(sensorType=sensor), SupportedScaleReport
+                SupportedGetScale(sensorType=sensor),
+                SupportedScaleReport,
+                match=lambda report, sensor=sensor: report.sensorType == sensor,
             )
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
-- 
2.43.0


From 58e9ee4e8829016c585a1eb284a785e0bdcff969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 36/60] fix: do not update the nodes several times at once

---
 pyzwave/application.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..a728422 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -31,6 +32,8 @@ class Application(Listenable):
         self._storage = storage
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
+        # Loading nodes takes time, do not update the nodes again meanwhile
+        self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -97,6 +100,11 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
+        async with self._nodesLock:
+            await self.__updateNodes__()
+
+    async def __updateNodes__(self):
+        """Add and remove nodes according to the node list"""
         nodeList = await self.adapter.getNodeList()
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
@@ -167,12 +175,17 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
-        for nodeId in await self.adapter.getNodeList():
-            await self.loadNode(nodeId)
+        async with self._nodesLock:
+            for nodeId in await self.adapter.getNodeList():
+                await self.loadNode(nodeId)
 
         for nodeId in await self.adapter.getFailedNodeList():
             _LOGGER.warning("FAILED node %s", nodeId)
 
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
+        nodes = list(self._nodes.values())
+        await self.ask("nodesAdded", nodes)
+        for node in nodes:
+            if self._nodes.get(node.nodeId) is not node:
+                # Removed in the meantime
+                continue
             await self.ask("nodeAdded", node)
-- 
2.43.0


From f0cf58d1e45c59751278342b39de5202c46c46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 37/60] fix: accept a key taken from another message as key

---
 pyzwave/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 8596ea1..607f2a4 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -360,6 +360,10 @@ class dsk_t:  # pylint: disable=invalid-name
         return self.__getstate__() == other
 
     def __setstate__(self, state):
+        if isinstance(state, dsk_t):
+            # A key from another message
+            self._dsk = state._dsk  # pylint: disable=protected-access
+            return
         if isinstance(state, bytes):
             if len(state) == 16 or len(state) == 0:
                 self._dsk = state
-- 
2.43.0


From b2b0217c0a067a702f5e5f6ea906e374faf481b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 38/60] fix: do not let errors in message handlers escape into
 the event loop

---
 pyzwave/commandclass/CommandClass.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 4f3b7d2..e986b9f 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -111,9 +111,14 @@ class CommandClass(AttributesMixin, Listenable):
         hid = message.hid()
         if self.__messageHandlers__:
             handler = self.__messageHandlers__.get(hid)
-            if handler and await handler(self, message, flags):
-                # Message was handled, stop further processing
-                return True
+            try:
+                if handler and await handler(self, message, flags):
+                    # Message was handled, stop further processing
+                    return True
+            except Exception as error:
+                # Such as a truncated message, or a reply that could not be sent
+                _LOGGER.warning("Error handling message %s: %s", message, error)
+                return False
 
         components = message.NAME.lower().split("_")
         name = "".join(["on", *map(str.title, components)])
-- 
2.43.0


From 2aea73272bc679f07f621b7cc0e4af19b877fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 39/60] fix: log the errors of asynchronous listeners nobody
 waits for

---
 pyzwave/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 1b3277e..a3865e4 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -125,6 +125,12 @@ class AttributesMixin:
             self._attributes[attrName] = value
 
 
+def logError(message, future):  # pylint: disable=invalid-name
+    """Log the error of an asynchronous listener, nobody might be waiting for it"""
+    if not future.cancelled() and future.exception():
+        _LOGGER.warning("Error calling listener.%s: %s", message, future.exception())
+
+
 class Listenable:
     """Inheritable class to implement listaner interface between classes"""
 
@@ -147,7 +153,6 @@ class Listenable:
         ):
             if isinstance(result, BaseException):
                 # Same as for listeners that are not async, see speak()
-                _LOGGER.warning("Error calling listener.%s: %s", message, result)
                 continue
             retval.append(result)
         return retval
@@ -165,7 +170,11 @@ class Listenable:
                 continue
             if inspect.iscoroutinefunction(method):
                 # Listener is a coroutine, call async
-                retval.append(asyncio.ensure_future(method(self, *args)))
+                future = asyncio.ensure_future(method(self, *args))
+                future.add_done_callback(
+                    lambda future, message=message: logError(message, future)
+                )
+                retval.append(future)
                 continue
             try:
                 future = asyncio.get_event_loop().create_future()
-- 
2.43.0


From fe2c85d3cef260ae946b3d11c1e354a07257b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 40/60] fix: store the changes of an interview that did not
 complete

---
 pyzwave/commandclass/CommandClass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index e986b9f..b0e0ecc 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -78,12 +78,14 @@ def interviewDecorator(interview):
         try:
             commandClass._interviewed = False  # pylint: disable=protected-access
             retval = await interview()
+            if retval is not False:
+                commandClass._interviewed = True  # pylint: disable=protected-access
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
             return False
-        if retval is not False:
-            commandClass._interviewed = True  # pylint: disable=protected-access
-        commandClass.speak("commandClassUpdated")
+        finally:
+            # An interview that did not complete may have changed the data as well
+            commandClass.speak("commandClassUpdated")
         return retval
 
     return wrapper
-- 
2.43.0


From bc7a242a7873f6a79ded8323fc286f956a91a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 41/60] fix: store the association group information received
 after the interview

---
 pyzwave/commandclass/AssociationGrpInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index fa9d178..f1fa36e 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -179,12 +179,14 @@ class AssociationGrpInfo(CommandClass):
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
+        self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
         for group in report.groups:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
+            self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
@@ -198,6 +200,7 @@ class AssociationGrpInfo(CommandClass):
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
+        self.speak("commandClassUpdated")
         return True
 
     async def interview(self):
-- 
2.43.0


From 5b714270a1985a5e3221e2bc7911387a5e9e1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 42/60] fix: store association groups interviewed on their own

---
 pyzwave/commandclass/Association.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index b0bdb47..d92164c 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -173,6 +173,7 @@ class Association(CommandClass):
             return
         group.maxNodes = report.maxNodesSupported
         group.nodes = nodes or report.nodes
+        self.speak("commandClassUpdated")
 
     async def setupLifeLine(self, groupingIdentifier=1):
         """Setup the lifeline association group"""
-- 
2.43.0


From 90b0737e82b6b0ab200fc08cb8fef2f29bdd4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 43/60] fix: do not mark association group information as
 interviewed when it could not be asked for

---
 pyzwave/commandclass/AssociationGrpInfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index f1fa36e..f01dc0f 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -206,9 +206,12 @@ class AssociationGrpInfo(CommandClass):
     async def interview(self):
         # We may get several reports from this command. At this point we do not know how many so
         # it is easier to handle them all in groupInfoReport than waiting here
-        await self.send(
+        sent = await self.send(
             GroupInfoGet(refreshCache=False, listMode=True, groupingIdentifier=0)
         )
+        if sent is False:
+            # Not delivered, there will be no reports
+            return False
         # We do not know when we have received everything so we mark the command class
         # as interviewed...
         return True
-- 
2.43.0


From 4c051a3f9df0c2d3fdf045cd6d34b57cdf2a24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 44/60] fix: do not announce nodes added during startup twice

---
 pyzwave/application.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index a728422..b19f047 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -178,11 +178,13 @@ class Application(Listenable):
         async with self._nodesLock:
             for nodeId in await self.adapter.getNodeList():
                 await self.loadNode(nodeId)
+            # Nodes added from here on are announced when they are added
+            nodes = list(self._nodes.values())
 
         for nodeId in await self.adapter.getFailedNodeList():
             _LOGGER.warning("FAILED node %s", nodeId)
 
-        nodes = list(self._nodes.values())
+        nodes = [node for node in nodes if self._nodes.get(node.nodeId) is node]
         await self.ask("nodesAdded", nodes)
         for node in nodes:
             if self._nodes.get(node.nodeId) is not node:
-- 
2.43.0


From a399346567ede972afa6736aff0d3f07b329bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 45/60] fix: reject Z/IP header extensions with length zero

---
 pyzwave/commandclass/Zip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 59b1069..829fa4c 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -207,6 +207,9 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         """Deserialize header extension from stream"""
         retval = {}
         extLength = stream.byte() - 1
+        if extLength < 0:
+            # The length includes itself
+            raise ValueError("Invalid header extension length")
         reader = BitStreamReader(stream.value(extLength))
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
-- 
2.43.0


From 32b82649d26cf46bc14cdf778105f85f9214fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 46/60] fix: reject Z/IP header extensions that end within an
 option

---
 pyzwave/commandclass/Zip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 829fa4c..403311f 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -212,6 +212,8 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
             raise ValueError("Invalid header extension length")
         reader = BitStreamReader(stream.value(extLength))
         while reader.bytesLeft() > 0:
+            if reader.bytesLeft() < 2:
+                raise EOFError("Tried to read past end of header extension")
             option = ZIPPacketOption()
             option.parseAttributes(reader)
             if not option.critical and option.optionType not in list(
-- 
2.43.0


From dc8440bbc0deb2bc2c7da4879510ba14d9848a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 47/60] fix: keep mailbox entries in order when a delivery
 fails while another is sent

---
 pyzwave/mailbox.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 5f67f1d..4248851 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -84,6 +84,7 @@ class MailboxService:
         self._adapter: Adapter = adapter
         self._adapter.addListener(self)
         self._lastQueueId = None
+        self._popLocks = {}
         self._queue = {}
 
     async def initialize(self, ipaddress: IPv6Address, port: int) -> bool:
@@ -96,6 +97,11 @@ class MailboxService:
         return await self._adapter.send(msg)
 
     async def __popQueue__(self, nodeId: int, queueHandle: int):
+        # Do not send the next message until we know if the previous was delivered
+        async with self._popLocks.setdefault(queueHandle, asyncio.Lock()):
+            return await self.__popNext__(nodeId, queueHandle)
+
+    async def __popNext__(self, nodeId: int, queueHandle: int):
         _LOGGER.debug("Pop queue (%d)", len(self._queue.get(queueHandle, [])))
         if not self._queue.get(queueHandle, None):
             return await self._adapter.sendToNode(
@@ -106,25 +112,22 @@ class MailboxService:
                     queueHandle=queueHandle,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop(0)
-        ret = False
-        try:
-            ret = await self._adapter.sendToNode(
-                nodeId,
-                Mailbox.Queue(
-                    last=len(self._queue[queueHandle]) == 0,
-                    operation=Mailbox.Queue.Operation.POP,
-                    queueHandle=queueHandle,
-                    mailboxEntry=queueItem.data,
-                ),
-            )
-        finally:
-            if not ret:
-                # Not delivered, keep it for the next time
-                self._queue[queueHandle].insert(0, queueItem)
+        # Keep it in the queue until it is delivered
+        queueItem = self._queue[queueHandle][0]
+        ret = await self._adapter.sendToNode(
+            nodeId,
+            Mailbox.Queue(
+                last=len(self._queue[queueHandle]) == 1,
+                operation=Mailbox.Queue.Operation.POP,
+                queueHandle=queueHandle,
+                mailboxEntry=queueItem.data,
+            ),
+        )
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
             queueItem.stop()
+            if queueItem in self._queue[queueHandle]:
+                self._queue[queueHandle].remove(queueItem)
         return True
 
     async def __pushQueue__(self, nodeId: int, queueHandle: int, message: bytes):
-- 
2.43.0


From 22e2a79be404073da67c8736f5afe103e0c37f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 48/60] fix: go on with mailbox heartbeats when the node cannot
 be connected

---
 pyzwave/mailbox.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 4248851..a5b42c8 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -73,8 +73,10 @@ class QueueItem:
                         mailboxEntry=self._data,
                     ),
                 )
-            except asyncio.TimeoutError:
-                _LOGGER.warning("Timeout sending heartbeat to node %s", self._nodeId)
+            except Exception as error:  # pylint: disable=broad-except
+                _LOGGER.warning(
+                    "Error sending heartbeat to node %s: %r", self._nodeId, error
+                )
 
 
 class MailboxService:
-- 
2.43.0


From 8bc2278fd02f442d56cec3235fc0dbe8d752a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 49/60] fix: read and write the length of the key where the
 message has one

---
 .../commandclass/NetworkManagementInclusion.py | 17 +++++++++++++++++
 pyzwave/commandclass/NodeProvisioning.py       | 18 +++++++++++++++++-
 pyzwave/types.py                               | 12 ++++++++++++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 05b22a9..5028438 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -26,6 +26,7 @@ from pyzwave.const.ZW_classcmd import (
 from pyzwave.message import Message
 from pyzwave.types import (
     BitStreamReader,
+    BitStreamWriter,
     dsk_t,
     enum_t,
     flag_t,
@@ -115,6 +116,14 @@ class IncludedNIFReport(Message):
         ("dsk", dsk_t),
     )
 
+    def compose_dsk(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Compose the length prefixed key"""
+        self.dsk.serializeWithLength(stream)
+
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse the length prefixed key"""
+        return dsk_t.deserializeWithLength(stream)
+
 
 @ZWaveMessage(COMMAND_CLASS_NETWORK_MANAGEMENT_INCLUSION, NODE_ADD)
 class NodeAdd(Message):
@@ -389,3 +398,11 @@ class SmartStartJoinStartedReport(Message):
         ("seqNo", uint8_t),
         ("dsk", dsk_t),
     )
+
+    def compose_dsk(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Compose the length prefixed key"""
+        self.dsk.serializeWithLength(stream)
+
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse the length prefixed key"""
+        return dsk_t.deserializeWithLength(stream)
diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index 941f727..3b3c391 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -1,6 +1,14 @@
 from enum import IntEnum
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bytes_t, dsk_t, reserved_t, uint5_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bytes_t,
+    dsk_t,
+    reserved_t,
+    uint5_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 from .CommandClass import VarDictAttribute
 
@@ -51,6 +59,14 @@ class Set(Message):
 
     attributes = (("seqNo", uint8_t), ("dsk", dsk_t), ("metaDataExtension", bytes_t))
 
+    def compose_dsk(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Compose the length prefixed key"""
+        self.dsk.serializeWithLength(stream)
+
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse the length prefixed key"""
+        return dsk_t.deserializeWithLength(stream)
+
 
 @ZWaveMessage(
     COMMAND_CLASS_NODE_PROVISIONING, COMMAND_NODE_PROVISIONING_LIST_ITERATION_GET
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 607f2a4..b5ca318 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -399,6 +399,18 @@ class dsk_t:  # pylint: disable=invalid-name
             raise ValueError("DSK must be 16 bytes, got {}".format(length))
         return stream.value(length)
 
+    def serializeWithLength(self, stream: BitStreamWriter):
+        """Serialize DSK preceded by its length"""
+        stream.addBits(0, 3)
+        stream.addBits(len(self._dsk), 5)
+        self.serialize(stream)
+
+    @classmethod
+    def deserializeWithLength(cls, stream: BitStreamReader):
+        """Deserialize DSK preceded by its length"""
+        stream.bits(3)
+        return cls.deserializeN(stream, stream.bits(5))
+
 
 class IPv6(ipaddress.IPv6Address):
     """Type for a IPv6 address"""
-- 
2.43.0


From b0b5c4d7d15d85d8a3debcfb0eb635e54643bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 50/60] fix: accept a printed key in the constructor of dsk_t

---
 pyzwave/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index b5ca318..da96ba6 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -343,7 +343,9 @@ class dsk_t:  # pylint: disable=invalid-name
     """Type for a DSK key"""
 
     def __init__(self, dsk=None):
-        self._dsk = dsk or b""
+        self._dsk = b""
+        if dsk:
+            self.__setstate__(dsk)
 
     def __getstate__(self):
         return "-".join(
-- 
2.43.0


From 3f89376ed2bb313ee55737d7e98abd4c9fc53174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 51/60] fix: ignore unknown provisioning metadata that is not
 critical

---
 pyzwave/commandclass/NodeProvisioning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index 3b3c391..b7a36e8 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -45,9 +45,13 @@ class MetadataExtension(VarDictAttribute(MetadataExtensionType, bytes)):
         retval = {}
         while stream.bytesLeft():
             metadataType = stream.bits(7)
-            _critical = stream.bit()
+            critical = stream.bit()
             length = stream.byte()
-            retval[metadataType] = stream.value(length)
+            value = stream.value(length)
+            if not critical and metadataType not in list(MetadataExtensionType):
+                # Unknown metadata that is not critical must be ignored
+                continue
+            retval[metadataType] = value
         return retval
 
 
-- 
2.43.0


From c724f2efd64d3fe858c84844fcf70f9ef3962eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 52/60] fix: Stop and sendTo of a connection fail before it is
 connected

---
 pyzwave/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzwave/connection.py b/pyzwave/connection.py
index 6a41a8f..69972f6 100644
--- a/pyzwave/connection.py
+++ b/pyzwave/connection.py
@@ -84,7 +84,11 @@ class Connection:
 
     def sendTo(self, msg, address) -> bool:
         """Send bytes to address"""
+        if not self._sock:
+            _LOGGER.error("Could not send, not yet connected!")
+            return False
         self._sock.sendto(msg, address)
+        return True
 
     def onMessage(self, cbfn):
         """Set the callback function to use when data has arrived"""
@@ -93,7 +97,8 @@ class Connection:
     def stop(self):
         """Stop the thread"""
         self._running = False
-        self._sock.close()
+        if self._sock:
+            self._sock.close()
 
     def _msgReceived(self, msg, sender):
         if not self._onMessage:
-- 
2.43.0


From e7ac90dee7449bb38fe832763ff7d8f9f9ad20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 53/60] fix: go on with the interview of other command classes
 after a truncated report

---
 pyzwave/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 50128d4..04cfdab 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -195,6 +195,9 @@ class Node(Listenable, MessageWaiter):
                 await cmdClass.interview()
             except asyncio.TimeoutError:
                 _LOGGER.warning("Timeout interviewing %s", cmdClass.name)
+            except Exception as error:
+                # Such as a truncated report
+                _LOGGER.warning("Error interviewing %s: %r", cmdClass.name, error)
 
     @property
     def isFailed(self) -> bool:
-- 
2.43.0


From 0ef9de72432442ecf6b300aa5888491650bd27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:50 +0000
Subject: [PATCH 54/60] fix: a truncated version report does not tell the
 version

---
 pyzwave/commandclass/CommandClass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index b0e0ecc..f8fd2b0 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -171,6 +171,9 @@ class CommandClass(AttributesMixin, Listenable):
                 Version.VersionCommandClassReport,
                 match=lambda report: report.requestedCommandClass == self.id,
             )
+            if answer.commandClassVersion is None:
+                # Truncated report
+                return 0
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
             return 0
-- 
2.43.0


From 446d84e2890829500c9e5c7836dda066730dc8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:51 +0000
Subject: [PATCH 55/60] fix: handle truncated network management reports as if
 not answered

---
 pyzwave/zipgateway.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 95dc958..878f2a9 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -123,6 +123,9 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
+        if report.failedNodeList is None:
+            # Truncated report
+            return set()
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
@@ -137,7 +140,8 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        # The last ones are missing in a truncated report
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
@@ -168,6 +172,9 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
+        if report.nodes is None:
+            # Truncated report
+            return set()
         self._nodeId = report.nodeListControllerId
         self._nodes = {x: {} for x in report.nodes}
         return report.nodes
@@ -225,7 +232,8 @@ class ZIPGateway(ZIPConnection):
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
         # Advertisements for other nodes may arrive as well
         session = self.addWaitingSession(
-            ZipND.ZipNodeAdvertisement, lambda response: response.nodeId == nodeId
+            ZipND.ZipNodeAdvertisement,
+            lambda response: response.nodeId == nodeId and response.ipv6 is not None,
         )
         self._conn.send(msg.compose())
         response = await self.waitForMessage(
@@ -248,6 +256,9 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return NetworkManagementInclusion.FailedNodeRemoveStatus.Status.REMOVE_FAIL
+        if report.status is None:
+            # Truncated report
+            return NetworkManagementInclusion.FailedNodeRemoveStatus.Status.REMOVE_FAIL
         return report.status
 
     async def removeNode(self) -> bool:
-- 
2.43.0


From a2018b635d6923eff43e99879b063277b84e1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 56/60] fix: ignore incomplete configuration reports

---
 pyzwave/commandclass/Configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 84cc955..4b7b9b9 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -142,7 +142,8 @@ class Configuration(CommandClass):
         report: Report = await self.sendAndReceive(
             Get(parameterNumber=number),
             Report,
-            match=lambda report: report.parameterNumber == number,
+            match=lambda report: report.parameterNumber == number
+            and report.value is not None,
         )
         return report.value
 
-- 
2.43.0


From e23e3cd4d7af410eaa2658835bab2caea3562a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 57/60] fix: leave an association group as it was after a
 truncated report

---
 pyzwave/commandclass/Association.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index d92164c..34b56cf 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -153,6 +153,9 @@ class Association(CommandClass):
         def isLastReport(report):
             if report.groupingIdentifier != groupingIdentifier:
                 return False
+            if report.reportsToFollow is None:
+                # Truncated report
+                return False
             nodes.extend(report.nodes)
             return not report.reportsToFollow
 
-- 
2.43.0


From ad334e82b4723443cbb24c4f1219d78bc23ddbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 58/60] fix: do not write keys beyond the buffer of the DTLS
 library

---
 pyzwave/dtlsconnection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 133aef1..48fb0bb 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -104,17 +104,23 @@ class DTLSConnection(threading.Thread):
         """Stop the thread"""
         self._running = False
 
-    def clientPskCb(self, _ssl, _hint, identity, _maxIdenityLen, cpsk, _maxPskLen):
+    def clientPskCb(self, _ssl, _hint, identity, maxIdentityLen, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
-        memmove(cpsk, self._psk, length)
         iden = "Client_identity"
+        if length > maxPskLen or len(iden) > maxIdentityLen:
+            # Does not fit, this fails the handshake
+            return 0
+        memmove(cpsk, self._psk, length)
         memmove(identity, iden.encode("utf-8"), len(iden))
         return length
 
-    def serverPskCb(self, _ssl, _identity, cpsk, _maxPskLen):
+    def serverPskCb(self, _ssl, _identity, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
+        if length > maxPskLen:
+            # Does not fit, this fails the handshake
+            return 0
         memmove(cpsk, self._psk, length)
         return length
 
-- 
2.43.0


From 5f9058a2e6b4eb8493e3e0a6d385d047ef2e3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:57 +0000
Subject: [PATCH 59/60] fix: a DTLS connection that is stopped while it is
 opened is not read

---
 pyzwave/dtlsconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 48fb0bb..080e472 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -67,9 +67,9 @@ class DTLSConnection(threading.Thread):
         self.start()
 
     def run(self):  # pylint: disable=missing-function-docstring
+        self._running = True
         self._sock = self.createDtlsPskSock()
         self._loop.call_soon_threadsafe(self._connectionEvent.set)
-        self._running = True
         while self._running:
             try:
                 if self._server:
-- 
2.43.0


From 0e5b59bf984bdbdccec297db1bfadcee2ebf4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 60/60] fix: the connection of a removed node is closed and
 forgotten

A node that was included later with the same id was reached at the address of
the removed one, and the removed one got keepalives forever.
---
 pyzwave/zipconnection.py | 7 +++++++
 pyzwave/zipgateway.py    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index d0e5b40..b430893 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -168,3 +168,10 @@ class ZIPConnection(Adapter):
 
     async def setNodeInfo(self, generic, specific, cmdClasses):
         raise NotImplementedError()
+
+    def stop(self):
+        """Close the connection"""
+        if self._keepAlive:
+            self._keepAlive.cancel()
+            self._keepAlive = None
+        self._conn.stop()
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 878f2a9..ec688f8 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -206,6 +206,10 @@ class ZIPGateway(ZIPConnection):
             if nodeId in report.nodes:
                 continue
             del self._nodes[nodeId]
+            # The next node with this id may be another one, with another address
+            connection = self._connections.pop(nodeId, None)
+            if connection:
+                connection.stop()
 
         # Find new nodes
         newNodes = [nodeId for nodeId in report.nodes if nodeId not in self._nodes]
-- 
2.43.0

