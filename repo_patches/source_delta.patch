From e43317c35c3a6346096d30725583cd34b01fba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/61] fix: pack Fixed and IPADDR fields without a NUL
 terminator

The terminator shifted every field that followed, so the datagram could not be decoded.
---
 pyogp/lib/base/message/data_packer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_packer.py b/pyogp/lib/base/message/data_packer.py
index 6897298..0f43b2c 100644
--- a/pyogp/lib/base/message/data_packer.py
+++ b/pyogp/lib/base/message/data_packer.py
@@ -29,13 +29,13 @@ from pyogp.lib.base.helpers import Helpers
 class DataPacker(object):
     def __init__(self):
         self.packer = {}
-        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_string)  #:DE 23oct2008 added handler for MVT_FIXED
+        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_fixed)  #:DE 23oct2008 added handler for MVT_FIXED
         self.packer[MsgType.MVT_VARIABLE]       = ('>',self.__pack_string)
         self.packer[MsgType.MVT_S8]             = ('>','b')
         self.packer[MsgType.MVT_U8]             = ('>','B')
         self.packer[MsgType.MVT_BOOL]           = ('>','B')
         self.packer[MsgType.MVT_LLUUID]         = ('>',self.__pack_uuid)
-        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_string)
+        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_fixed)
         self.packer[MsgType.MVT_IP_PORT]        = ('>','H')
         self.packer[MsgType.MVT_U16]            = ('<','H')
         self.packer[MsgType.MVT_U32]            = ('<','I')
@@ -93,6 +93,12 @@ class DataPacker(object):
         else:
             return uuid.bytes
 
+    def __pack_fixed(self, endian, data):
+        """Return fixed size data as is: its length is not on the wire, so there is no terminator."""
+        if isinstance(data, unicode):
+            return data.encode('utf-8')
+        return data
+
     def __pack_string(self, endian, pack_string):
         """Return the string UTF-8 encoded and null terminated."""
         if pack_string == None:
-- 
2.43.0


From dbb471bd42dc5bfc32e9832597cfac6521d0565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 02/61] fix: read appended acks in network byte order

Packet ids are big-endian in the header and in appended acks, so the ids read
here never matched the packets that were being acknowledged.
---
 pyogp/lib/base/message/udpdeserializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 5ad6c4f..e06c530 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -240,7 +240,8 @@ class UDPMessageDeserializer(object):
             ack_pos = 0
             while acks > 0:
                 ack_packet_id = self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, \
-                                                          start_index=ack_pos)
+                                                          start_index=ack_pos, \
+                                                          endian_type=EndianType.BIG)
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
-- 
2.43.0


From fc2bc995f403fbe01b8fb18d1ccabbdae6cce8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 03/61] fix: find the message number behind the extra header

The body was read at the right offset, but the template was chosen from the
bytes of the extra header.
---
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index e06c530..e1e8bbc 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -153,7 +153,9 @@ class UDPMessageDeserializer(object):
         if PacketLayout.PACKET_ID_LENGTH >= len(message_buffer):
             raise exc.MessageDeserializationError("packet length", "template mismatch")
 
-        header = message_buffer[PacketLayout.PACKET_ID_LENGTH:12]
+        # the message number comes after the extra header, if there is one
+        start = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
+        header = message_buffer[start:start+6]
         self.current_template = self.__decode_header(header)
         if self.current_template != None:
             return True
-- 
2.43.0


From 2392ab1cb008d012a5495ceec6501ebfedce5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 04/61] fix: report truncated datagrams as
 MessageDeserializationError

Datagrams too short for their header, message number or announced acks raised
IndexError or struct.error, and a body cut short was completed with the bytes
of the appended acks.
---
 pyogp/lib/base/message/udpdeserializer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index e1e8bbc..1d9cf08 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -77,10 +77,15 @@ class UDPMessageDeserializer(object):
         msg_buff = self.context
         msg_len = len(msg_buff)
 
+        if msg_len < PacketLayout.MINIMUM_VALID_PACKET_SIZE:
+            raise exc.MessageDeserializationError("packet length", "packet is too short")
+
         if ord(msg_buff[0]) & PackFlags.LL_ACK_FLAG:
             num_acks = ord(msg_buff[msg_len-1])
             #logger.debug("Decoding packet with acks: %d", num_acks)
             ack_length = 1 + sizeof(MsgType.MVT_U32) * num_acks
+            if msg_len - ack_length < PacketLayout.MINIMUM_VALID_PACKET_SIZE:
+                raise exc.MessageDeserializationError("packet acks", "more acks announced than the packet holds")
             temp_acks = msg_buff[-ack_length:]
             msg_buff = msg_buff[:-ack_length]
 
@@ -156,7 +161,10 @@ class UDPMessageDeserializer(object):
         # the message number comes after the extra header, if there is one
         start = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
         header = message_buffer[start:start+6]
-        self.current_template = self.__decode_header(header)
+        try:
+            self.current_template = self.__decode_header(header)
+        except (IndexError, struct.error), error:
+            raise exc.MessageDeserializationError("message number", error)
         if self.current_template != None:
             return True
 
@@ -247,6 +255,8 @@ class UDPMessageDeserializer(object):
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
+            # the acks are no part of the message body
+            data = data[:msg_size-ack_start]
 
         #RELIABLE - means the message wants to be acked by us
         if packet.send_flags & PackFlags.LL_RELIABLE_FLAG:
-- 
2.43.0


From 2868720770583e9ea47c852730ebf93796f1c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/61] fix: let the serializer use a custom message template

The template file was passed as the list of parsed templates. A dictionary
built from such a list also had no template_list for get_template_list.
---
 pyogp/lib/base/message/template_dict.py | 6 +++---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/template_dict.py b/pyogp/lib/base/message/template_dict.py
index 3ce62df..ca4145d 100644
--- a/pyogp/lib/base/message/template_dict.py
+++ b/pyogp/lib/base/message/template_dict.py
@@ -37,9 +37,9 @@ class TemplateDictionary(object):
                 parser = MessageTemplateParser(message_template)
 
             template_list = parser.message_templates
-            template_dict = TemplateDictionary(template_list)
-            # adding below so we can check how many packets we can parse easily len(self.template_list)
-            self.template_list = template_list
+
+        # adding below so we can check how many packets we can parse easily len(self.template_list)
+        self.template_list = template_list
 
         # maps name to template
         self.message_templates = {}
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 452bdfe..d76b395 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -40,7 +40,7 @@ class UDPMessageSerializer(object):
         """initialize the adapter"""
         self.context = None	# the UDPMessage
 
-        self.template_dict = TemplateDictionary(message_template)
+        self.template_dict = TemplateDictionary(message_template = message_template)
         self.current_template = None
         self.packer = DataPacker()
 
-- 
2.43.0


From ef00de9d092239ac567fc831b1f9b0436115739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 06/61] fix: check for an unknown message before using its
 template

---
 pyogp/lib/base/message/udpserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index d76b395..072d2ba 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -62,6 +62,9 @@ class UDPMessageSerializer(object):
 
         self.set_current_template()
 
+        if self.current_template == None:
+            return None
+
         # validate whether we are allowed to receive this message over udp
         if not self.message_xml.validate_udp_msg(self.current_template.name):
             logger.warning("Sending '%s' over UDP, which is deprecated. Discarding." % (self.current_template.name))
@@ -82,9 +85,6 @@ class UDPMessageSerializer(object):
         #pack in the offset to the data. NOTE: for 1 byte, endian doesn't matter
         msg_buffer += self.packer.pack_data(0, MsgType.MVT_U8)
 
-        if self.current_template == None:
-            return None
-
         #don't need to pack the frequency and message number. The template
         #stores it because it doesn't change per template.
         pack_freq_num = self.current_template.msg_num_hex
-- 
2.43.0


From 188bdf6f7edb618113cb3c6d40fc3a9dd666b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 07/61] fix: serialize the packet id as the unsigned number it
 is read as

Re-serializing a received packet whose id is 2**31 or more failed.
---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 072d2ba..69ac766 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -79,7 +79,7 @@ class UDPMessageSerializer(object):
 
         #set packet ID
         msg_buffer += self.packer.pack_data(self.context.packet_id, \
-                                                  MsgType.MVT_S32, \
+                                                  MsgType.MVT_U32, \
                                                   endian_type=EndianType.BIG)
 
         #pack in the offset to the data. NOTE: for 1 byte, endian doesn't matter
-- 
2.43.0


From 4aa43f1038b0e7798b68a5f5539ee44d65bd5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 08/61] fix: append the acks that the ack flag announces

Packets sent while acks were pending carried the flag, but not the acks, so the
receiver took the end of the body for them. A message sent again kept the acks
of its previous packet, and more than 255 acks do not fit the count byte.
---
 pyogp/lib/base/message/circuit.py       |  5 ++++-
 pyogp/lib/base/message/udpserializer.py | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 8d336f0..824096c 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -73,13 +73,16 @@ class Circuit(object):
         packet.packet_id = self.next_packet_id()
 
         #if we have acks that we can add on, add them
+        packet.acks = []
+        packet.num_acks = 0
         ack_count = len(self.acks)
         if ack_count > 0 and packet.name != "PacketAck":
             packet.send_flags |= PackFlags.LL_ACK_FLAG
 
             #also, sends as many acks as we can onto the end of the packet
             #acks are just the packet_id that we are acking
-            for packet_id in self.acks:
+            #(their count has to fit in a byte, the others stay queued)
+            for packet_id in self.acks[:255]:
                 packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 69ac766..8001d2d 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -21,7 +21,7 @@ import struct
 from logging import getLogger
 
 # pygop
-from msgtypes import MsgType, MsgBlockType, EndianType
+from msgtypes import MsgType, MsgBlockType, EndianType, PackFlags
 from data_packer import DataPacker
 from template_dict import TemplateDictionary
 from pyogp.lib.base import exc
@@ -102,6 +102,14 @@ class UDPMessageSerializer(object):
             # testing a hack to let RegionHandshakeReply get parsed
             msg_buffer += struct.pack(">I", 0)
 
+        #the ack flag announces acks at the end of the packet: their packet IDs
+        #in network order, followed by their count
+        if self.context.send_flags & PackFlags.LL_ACK_FLAG:
+            for packet_id in self.context.acks:
+                msg_buffer += self.packer.pack_data(packet_id, MsgType.MVT_U32, \
+                                                    endian_type=EndianType.BIG)
+            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)
+
         self.message_buffer = msg_buffer
 
         return msg_buffer
-- 
2.43.0


From 246262ad8669e2c67d6f5f704251f6ae53e393ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 09/61] fix: do not flag packets as zero-coded that are not

Re-serializing a message received zero-coded kept the flag, but wrote the body
as it is.
---
 pyogp/lib/base/message/udpserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 8001d2d..5449c14 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -75,7 +75,9 @@ class UDPMessageSerializer(object):
         bytes = 0
 
         #put the flags in the begining of the data. NOTE: for 1 byte, endian doesn't matter
-        msg_buffer += self.packer.pack_data(self.context.send_flags, MsgType.MVT_U8)
+        #the body isn't zero-coded here, whatever the message was received as
+        send_flags = self.context.send_flags & ~PackFlags.LL_ZERO_CODE_FLAG
+        msg_buffer += self.packer.pack_data(send_flags, MsgType.MVT_U8)
 
         #set packet ID
         msg_buffer += self.packer.pack_data(self.context.packet_id, \
-- 
2.43.0


From 852a21f8f80f3772fe1f9e77b97a2583cfa289c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 10/61] fix: serialize messages with no instance of a variable
 block

Neither a message built without it nor one received that way could be sent.
---
 pyogp/lib/base/message/udpserializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 5449c14..204a31c 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -123,7 +123,11 @@ class UDPMessageSerializer(object):
         #the MsgData blocks is a list of lists
         #each block in the list is a block_list because you can have more than
         #one block for any given name
-        block_list = message_data.get_block(template_block.name)
+        if template_block.block_type == MsgBlockType.MBT_VARIABLE:
+            #it may repeat zero times
+            block_list = message_data.blocks.get(template_block.name, [])
+        else:
+            block_list = message_data.get_block(template_block.name)
         block_count = len(block_list)
 
         #multiple block type means there is a static number of these blocks
-- 
2.43.0


From 66a8d2ad519f189def837a4cbd39f8c533895461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 11/61] fix: refuse messages that do not fit their template

Extra single blocks, more than 255 variable blocks, variable fields longer than
their length prefix can tell and fixed size fields of another size were
written anyway, which gave a datagram that reads as something else.
---
 pyogp/lib/base/message/udpserializer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 204a31c..f1f7979 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -130,6 +130,9 @@ class UDPMessageSerializer(object):
             block_list = message_data.get_block(template_block.name)
         block_count = len(block_list)
 
+        if template_block.block_type == MsgBlockType.MBT_SINGLE and block_count != 1:
+            raise exc.MessageSerializationError(template_block.name, "block data mismatch")
+
         #multiple block type means there is a static number of these blocks
         #that make up this message, with the number stored in the template
         #don't need to add it to the buffer, because the message handlers that
@@ -142,6 +145,8 @@ class UDPMessageSerializer(object):
         #mark how many blocks there are of this type that repeat, stored in
         #the data
         if template_block.block_type == MsgBlockType.MBT_VARIABLE:
+            if block_count > 255:
+                raise exc.MessageSerializationError(template_block.name, "too many blocks")
             block_buffer += struct.pack('>B', block_count)
             bytes += 1            
 
@@ -161,6 +166,8 @@ class UDPMessageSerializer(object):
 
                 #if its a VARIABLE type, we have to write in the size of the data
                 if v.type == MsgType.MVT_VARIABLE:
+                    if var_size in (1, 2, 4) and len(data) >= 1 << (8 * var_size):
+                        raise exc.MessageSerializationError(variable.name, "data is too long")
                     #data_size = template_block.get_variable(variable.name).size
                     if var_size == 1:
                         block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U8)
@@ -176,6 +183,9 @@ class UDPMessageSerializer(object):
 
                     bytes += var_size
 
+                elif len(data) != var_size:
+                    raise exc.MessageSerializationError(variable.name, "data has the wrong size")
+
                 block_buffer += data
                 bytes += len(data)
 
-- 
2.43.0


From 9ae87622907c360fbdbd91c8491424d8d2303273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 12/61] fix: heed the reliable and ack flags of packets that
 are not parsed

Every skipped packet was acked, reliable or not, and the acks appended to it
were lost.
---
 pyogp/lib/base/message/udpdispatcher.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index bb4325d..4da63c1 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -142,7 +142,15 @@ class UDPDispatcher(object):
                 packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)
 
                 # queue the ack up
-                circuit.collect_ack(packet_id)
+                if send_flags & PackFlags.LL_RELIABLE_FLAG:
+                    circuit.collect_ack(packet_id)
+
+                # it may ack packets of ours nevertheless
+                if send_flags & PackFlags.LL_ACK_FLAG:
+                    ack_end = len(msg_buf) - 1
+                    for ack_pos in range(ack_end - 4 * ord(msg_buf[ack_end]), ack_end, 4):
+                        circuit.ack_reliable_packet(
+                            self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, ack_pos, endian_type=EndianType.BIG))
 
                 return None
 
-- 
2.43.0


From fa244a226fbc821b78bf6b5c69fe62fa95192f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 13/61] fix: pass message and host in order in send_retry

---
 pyogp/lib/base/message/udpdispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 4da63c1..93cc6c3 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -187,7 +187,7 @@ class UDPDispatcher(object):
     def send_retry(self, message, host):
         """ This is a retry because we didn't get acked """
         #sets up the message so send_message will add the RETRY flag to it
-        return self.__send_message(host, message, retrying=True)                
+        return self.__send_message(message, host, retrying=True)
 
     def send_message(self, message, host):
         return self.__send_message(message, host)
-- 
2.43.0


From e33831ae7c5cac2000aca544933ae8ef669d2f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 14/61] fix: let PacketAck messages ack our reliable packets

Only acks appended to other packets were heeded. The handler is needed for the
deserializer even when packets are not to be handled.
---
 pyogp/lib/base/message/circuit.py       | 4 ++++
 pyogp/lib/base/message/udpdispatcher.py | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 824096c..3380070 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -93,6 +93,10 @@ class Circuit(object):
         for ack_packet_id in packet.acks:
             self.ack_reliable_packet(ack_packet_id)
 
+        if packet.name == "PacketAck":
+            for block in packet.blocks.get("Packets", []):
+                self.ack_reliable_packet(block["ID"])
+
         if packet.reliable == True:
             self.collect_ack(packet.packet_id)
 
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 93cc6c3..2f13516 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -93,10 +93,13 @@ class UDPDispatcher(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             from pyogp.lib.base.message.message_handler import MessageHandler
             self.message_handler = MessageHandler()
 
+        # the circuits need the acks even if nobody else subscribes to them
+        self.message_handler.register('PacketAck')
+
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-- 
2.43.0


From 7c0259ede7086f8705bf3996f1d643434d2362f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 15/61] fix: provide a message handler even when packets are
 not to be handled

With HANDLE_PACKETS off, the attribute was missing and creating a message
manager or receiving a packet failed with AttributeError.
---
 pyogp/lib/base/message/udpdeserializer.py | 2 +-
 pyogp/lib/base/message_manager.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 1d9cf08..54f7406 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -62,7 +62,7 @@ class UDPMessageDeserializer(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
     def deserialize(self, context):
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2cf8f4b..b770993 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -60,7 +60,7 @@ class MessageManager(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
         # allow the passing in of message_template.msg as a file handle
-- 
2.43.0


From da08271f3da5a0b88369ff7109703c5e10a731c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 16/61] fix: fall back to the embedded template and message.xml
 as announced

The warning about a parameter that is no file raised NameError, and so would
the import of the embedded template.
---
 pyogp/lib/base/message/udpdispatcher.py | 2 +-
 pyogp/lib/base/message_manager.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 2f13516..db96746 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -78,7 +78,7 @@ class UDPDispatcher(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
                 self.message_template = None
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index b770993..ca4b953 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -70,10 +70,10 @@ class MessageManager(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
 
-                from pyogp.lib.base.data import msg_tmpl
+                from pyogp.lib.base.message.data import msg_tmpl
                 self.message_template = msg_tmpl
 
         # allow the passing in of message.xml as a file handle
@@ -84,7 +84,7 @@ class MessageManager(object):
             if isinstance(message_xml, file):
                 self.message_xml = MessageDotXML(message_xml = message_xml.read())
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message.xml" % (message_xml, type(message_xml)))
                 self.message_xml = MessageDotXML()
 
-- 
2.43.0


From 4aecdfe89f0617060de509b279cf746f72200034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 17/61] fix: apply a custom message.xml to the packets sent and
 received

---
 pyogp/lib/base/message/udpdispatcher.py | 6 ++++--
 pyogp/lib/base/message_manager.py       | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index db96746..1667d30 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -103,8 +103,10 @@ class UDPDispatcher(object):
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-                                                        message_template = self.message_template)
-        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template)
+                                                        message_template = self.message_template,
+                                                        message_xml = self.message_xml)
+        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template,
+                                                   message_xml = self.message_xml)
 
     def find_circuit(self, host):
         circuit = self.circuit_manager.get_circuit(host)
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index ca4b953..fab6b3a 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -109,7 +109,8 @@ class MessageManager(object):
 
         self.udp_dispatcher = UDPDispatcher(settings = self.settings,
                                             message_handler = self.message_handler,
-                                            message_template = self.message_template)
+                                            message_template = self.message_template,
+                                            message_xml = self.message_xml)
 
         # if start parameter = True, kick off the queue monitors
         if start_monitors:
-- 
2.43.0


From c9a1dd88b41ecaec43988851ea347a11dab38e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 18/61] fix: give each sender its own host

The circuits of all peers heard from shared one host object, which each
received packet changed, so acks went to whoever had sent last.
---
 pyogp/lib/base/network/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 3a4274b..497fc60 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -49,8 +49,8 @@ class NetUDPClient(object):
         except:
             return '', 0
         #print self.sender
-        self.sender.ip = addr[0]
-        self.sender.port = addr[1]
+        # a new one: circuits keep the host they were created for
+        self.sender = Host((addr[0], addr[1]))
         return data, len(data)
 
     def start_udp_connection(self):
-- 
2.43.0


From e75c05253b209e8d8827d82005f9b2f9a6a655fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 19/61] fix: return a string from NetUDPClient.__repr__

---
 pyogp/lib/base/network/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 497fc60..ce40ddd 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -67,7 +67,7 @@ class NetUDPClient(object):
 
     def __repr__(self):
 
-        return self.sender.__repr__
+        return self.sender.__repr__()
 
 """
 Contributors can be viewed at:
-- 
2.43.0


From 353bef9101176a8673fcbba3a4163c433817d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 20/61] fix: notify all subscribers even if one unsubscribes
 meanwhile

Removing a subscription during the notification made it skip the next one.
---
 pyogp/lib/base/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 45f45a9..4c587bf 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -52,7 +52,8 @@ class Event(object):
 
     def notify(self, args):
 
-        for instance, inner_args, kwargs in self.subscribers:
+        # a copy, as handlers may (un)subscribe
+        for instance, inner_args, kwargs in self.subscribers[:]:
 
             try:
 
-- 
2.43.0


From 940e07cd2648332262e37089a4a79bb1e4792b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 21/61] fix: NameError in Event.unsubscribe, AttributeError in
 clearSubscribers

---
 pyogp/lib/base/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 4c587bf..9fb349e 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -46,7 +46,7 @@ class Event(object):
 
         except:
 
-            raise ValueError("Handler '%s' is not subscribed to this event." %s (handler))
+            raise ValueError("Handler '%s' is not subscribed to this event." % (handler,))
 
         return self
 
@@ -71,7 +71,7 @@ class Event(object):
 
     def clearSubscribers(self):
 
-        self.subscribers.clear()
+        self.subscribers = []
         return self
 
     def getSubscribers(self):
-- 
2.43.0


From 1636aa98afc41514852889c01fd22e02fe02bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 22/61] fix: do not swallow a KeyError raised by a subscriber

---
 pyogp/lib/base/message/message_handler.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyogp/lib/base/message/message_handler.py b/pyogp/lib/base/message/message_handler.py
index 4daa4ac..77cb5bd 100644
--- a/pyogp/lib/base/message/message_handler.py
+++ b/pyogp/lib/base/message/message_handler.py
@@ -70,16 +70,16 @@ class MessageHandler(object):
 
             handler = self.handlers[message.name]
 
-            # Handle the message if we have subscribers
-            # Conveniently, this will also enable verbose message logging
-            if len(handler) > 0:
-                if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
-
-                handler(message)
-
         except KeyError:
             #logger.info("Received an unhandled message: %s" % (message.name))
-            pass
+            return
+
+        # Handle the message if we have subscribers
+        # Conveniently, this will also enable verbose message logging
+        if len(handler) > 0:
+            if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
+
+            handler(message)
 
 class MessageHandledNotifier(object):
     """ pseudo subclassing the Event class to treat the message like an event """
-- 
2.43.0


From d5b69eed26bcb90979700fc3861fb84977100371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 23/61] fix: do not deliver the previous events again when a
 poll fails

After an error, such as the usual timeout of a poll without events, the result
of the last successful poll was parsed once more.
---
 pyogp/lib/base/event_queue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 0c06fe3..95efea8 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -194,6 +194,8 @@ class EventQueueClient(object):
                         else:
                             host_string = ''
                         logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
+                        # there is no new result, and the ack may not have arrived
+                        continue
 
                     if self.result != None: 
                         self.last_id = self.result['id']
-- 
2.43.0


From ab6687da8ce4f7e5ffaa7b96625fad15380267ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 24/61] fix: finish stopping the event queue when the last ack
 fails

The client stayed marked as running, and its coroutine died of the exception.
---
 pyogp/lib/base/event_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 95efea8..b9a18c2 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -211,7 +211,10 @@ class EventQueueClient(object):
                 # Need to ack the last message received, otherwise it will be
                 # resent if we re-connect to the same queue
                 self.data = {'ack':self.last_id, 'done':True}
-                self.cap.POST(self.data)
+                try:
+                    self.cap.POST(self.data)
+                except Exception, error:
+                    logger.warning("Error in the last post to the event queue. Error was: %s" % (error))
 
             self._running = False
 
-- 
2.43.0


From 71eee23e4861556aa82cae1cd30595a6b07e1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 25/61] fix: keep handling event queue events after one that
 fails

A malformed event or a handler that raised an exception dropped the other
events of the response, which is acked and not sent again.
---
 pyogp/lib/base/event_queue.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index b9a18c2..d0ce8ed 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -252,11 +252,22 @@ class EventQueueClient(object):
 
                 logger.debug('Event Queue result%s: %s' % (host_string, data))
 
-                # this returns packets
-                parsed_data = self._decode_eq_result(data)
+                for event in data.get('events', []):
 
-                for packet in parsed_data:
-                    self.message_handler.handle(packet)
+                    # one event at a time, a bad one must not cost us the others
+                    try:
+
+                        # this returns packets
+                        parsed_data = self._decode_eq_result({'events': [event]})
+
+                        for packet in parsed_data:
+                            self.message_handler.handle(packet)
+
+                    except Exception, error:
+
+                        traceback.print_exc()
+
+                        logger.warning("Error handling event queue event%s. Error: %s. Event was: %s" % (host_string, error, event))
 
         except Exception, error:
 
-- 
2.43.0


From 3613003453dc6db2d1810d60f3819b4c79689d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 26/61] fix: stop monitors of a message manager that has no
 event queue

---
 pyogp/lib/base/message_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index fab6b3a..4534f90 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -141,7 +141,7 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue._running:
+        if self.event_queue != None and self.event_queue._running:
             self.event_queue.stop()        
 
     def monitor_outgoing_queue(self):
-- 
2.43.0


From c1bf4224b0f92c42bcd390a4e0ea796ca149baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 27/61] fix: keep the UDP connection alive when a malformed
 packet arrives

The exception ended the coroutine that sends and receives all packets.
---
 pyogp/lib/base/message_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 4534f90..51b859f 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -20,6 +20,7 @@ $/LicenseInfo$
 from logging import getLogger
 
 # pyogp.lib.base
+from pyogp.lib.base import exc
 from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
 from pyogp.lib.base.message.message_handler import MessageHandler
 from pyogp.lib.base.message.message_dot_xml import MessageDotXML
@@ -173,9 +174,12 @@ class MessageManager(object):
         while self._is_running:
             api.sleep(0)
             msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)
-            recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
-                                                            msg_buf, 
-                                                            msg_size)
+            try:
+                recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
+                                                                msg_buf, 
+                                                                msg_size)
+            except exc.MessageDeserializationError, error:
+                logger.warning("Discarding a malformed packet: %s" % (error))
             #self.incoming_queue.append(recv_packet)
             if self.udp_dispatcher.has_unacked():
                 self.udp_dispatcher.process_acks()
-- 
2.43.0


From 4e7ec28ddbf5b6c07e78f7faaef00abff4b8044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 28/61] fix: stop an event queue whose coroutine has not
 started yet

Its polling loop began after stop_monitors and was never told to stop.
---
 pyogp/lib/base/message_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 51b859f..6c5caaa 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -142,7 +142,8 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue != None and self.event_queue._running:
+        # (it may not be running yet if its coroutine has not had its turn)
+        if self.event_queue != None:
             self.event_queue.stop()        
 
     def monitor_outgoing_queue(self):
-- 
2.43.0


From 0402211be5e0f79d8006f8ed0610891a6996efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 29/61] fix: import the exceptions that the template parser
 raises

---
 pyogp/lib/base/message/template_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 4dd402a..3f7c5dd 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -27,6 +27,7 @@ import template
 from data import msg_tmpl
 from msgtypes import MsgFrequency, MsgTrust, MsgEncoding
 from msgtypes import MsgDeprecation, MsgBlockType, MsgType, sizeof
+from pyogp.lib.base import exc
 
 MESSAGE = 1
 BLOCK = 2
-- 
2.43.0


From 12a40608857b94fec82ee2fd2f00bb8488a44afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 30/61] fix: include all instances of a repeated block in
 Message.to_dict

---
 pyogp/lib/base/message/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index b9f2529..3cb86bc 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -140,10 +140,10 @@ class Message(MessageBase):
                     this_var = _vars.get_variable(avar)
                     new_vars[this_var.name] = this_var.data
  
-            if block in base_repr['body']:
-                base_repr['body'][block].append(new_vars)
-            else: 
-                base_repr['body'][block] = [new_vars]
+                if block in base_repr['body']:
+                    base_repr['body'][block].append(new_vars)
+                else: 
+                    base_repr['body'][block] = [new_vars]
 
         return base_repr
 
-- 
2.43.0


From 7737a9d81361f84c5fd22627181ee25af43b3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 31/61] fix: render non-ASCII text and Fixed data of odd length

Printing or logging such a message raised UnicodeEncodeError or struct.error.
---
 pyogp/lib/base/message/template.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/template.py b/pyogp/lib/base/message/template.py
index 52a033f..0fe0e37 100644
--- a/pyogp/lib/base/message/template.py
+++ b/pyogp/lib/base/message/template.py
@@ -90,10 +90,12 @@ class MsgVariableData(object):
         return MsgType.MVT_as_string(self.var_type) #LDE 23oct2008 adding var_type_as_string to allow for easier display
 
     def get_data_as_string(self):
-        if self.var_type == MsgType.MVT_VARIABLE:
-            return self.data
+        if isinstance(self.data, unicode):
+            return self.data.encode('utf-8')
+        elif self.var_type == MsgType.MVT_VARIABLE:
+            return str(self.data)
         elif self.var_type == MsgType.MVT_FIXED:
-            return str(struct.unpack('h'*(len(self.data)/2), self.data))
+            return str(struct.unpack('h'*(len(self.data)/2), self.data[:len(self.data)/2*2]))
         else: 
             return str(self.data)
 
-- 
2.43.0


From 93854553650e605830937d0a194ad26c70c706ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 32/61] fix: AttributeError in Message.get_var

The blocks of a name are a list, the variable of the first one is meant.
---
 pyogp/lib/base/message/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index 3cb86bc..23e6e33 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -117,7 +117,7 @@ class Message(MessageBase):
 
     def get_var(self, block, variable):
 
-        return self.blocks[block].vars[variable]
+        return self.blocks[block][0].vars[variable]
 
     def from_dict_params(self, data):
         """ build this instance from a dict """
-- 
2.43.0


From d802d4a12fdb2929e7d0404bfdcc5f2ec9dc8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 33/61] fix: give UUID the inequality and hash that belong to
 its equality

Equal UUIDs compared unequal with != and were different dictionary keys.
---
 pyogp/lib/base/datatypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyogp/lib/base/datatypes.py b/pyogp/lib/base/datatypes.py
index bdfff7c..1ed6e34 100644
--- a/pyogp/lib/base/datatypes.py
+++ b/pyogp/lib/base/datatypes.py
@@ -241,6 +241,12 @@ class UUID(object):
             return False
 
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.uuid)
+
     def __xor__(self, arg):
         """ the xor of two UUIDs """
         temp = self.uuid.int ^ arg.uuid.int
-- 
2.43.0


From 3e5a4a547d4ba9163d7b6f0923142e7c7501b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 34/61] fix: accept false LLSD values, report all malformed
 LLSD as DeserializationFailed

A document holding 0, 0.0 or false was rejected, and malformed input on which
the parser fails with e.g. IndexError was not reported as such.
---
 pyogp/lib/base/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 518e9df..63661af 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -264,9 +264,10 @@ class LLSDDeserializer(object):
 
         try:
             r = llsd.parse(data)
-        except llsd.LLSDParseError, e:
+        except Exception, e:
+            # the parser reports some malformed input with other exceptions than LLSDParseError
             raise DeserializationFailed(data, str(e))
-        if r==False:
+        if data.strip()=='':
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From 606bb85c06ad971b0566cc523286b63e87d3ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 35/61] fix: send the custom headers of a capability GET

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 0d05b33..b7df45d 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -71,7 +71,7 @@ class Capability(object):
         if self.settings.ENABLE_CAPS_LOGGING: logger.debug('%s: GETing %s' %(self.name, self.public_url))
 
         try:
-            response = self.restclient.GET(self.public_url)
+            response = self.restclient.GET(self.public_url, headers=custom_headers)
         except HTTPError, e:
             if e.code==404:
                 raise ResourceNotFound(self.public_url)
-- 
2.43.0


From 7af12dc12510706bb244098e54ec4200901c890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 36/61] fix: pass the settings of a seed capability on to the
 capabilities it gets

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index b7df45d..08c46b2 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -187,7 +187,7 @@ class SeedCapability(Capability):
         caps = {}
         for name in names:
             # TODO: some caps might be seed caps, how do we know? 
-            caps[name]=Capability(name, parsed_result[name], self.restclient)
+            caps[name]=Capability(name, parsed_result[name], self.restclient, self.settings)
 
         return caps
 
-- 
2.43.0


From b2418c8c81c1da66add8501b7f5d090c2fd702fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 37/61] fix: pass the settings of a message manager on to its
 event queue

---
 pyogp/lib/base/message_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 6c5caaa..2c3bde0 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -98,6 +98,7 @@ class MessageManager(object):
         self.capabilities = capabilities
         if self.capabilities.has_key('EventQueueGet'):
             self.event_queue = EventQueueClient(self.capabilities['EventQueueGet'], 
+                                                settings = self.settings,
                                                 message_handler = self.message_handler, 
                                                 host = self.host)
         else:
-- 
2.43.0


From bea86651d4473fa927de28f151ecf591797cfda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 38/61] fix: resend reliable packets that are not acked

Circuits were never entered in unacked_circuits, and the code for resending
expected packets to know a buffer and a host they do not have. Now the packet
is sent again as it was, with the resent flag, as often as retries allow (not
at all for the message manager, which asks for none).
---
 pyogp/lib/base/message/circuit.py       |  2 ++
 pyogp/lib/base/message/udpdispatcher.py | 30 +++++++++++++------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 3380070..45d8fdc 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -57,6 +57,7 @@ class Circuit(object):
 
         self.acks                = [] #packets we need to ack (ids)       
         self.unacked_packets     = {} #packets we want acked, can be resent
+        self.resend_buffers      = {} #packet_id to (buffer, retries left), for those to be resent
         self.unack_packet_count  = 0
         self.unack_packet_bytes  = 0
         self.final_retry_packets = {} #packets we want acked, can't be resent
@@ -102,6 +103,7 @@ class Circuit(object):
 
     def ack_reliable_packet(self, packet_id):
         #go through the packets waiting to be acked, and set them as acked
+        self.resend_buffers.pop(packet_id, None)
         if packet_id in self.unacked_packets:
             del self.unacked_packets[packet_id]
             self.unack_packet_count -= 1
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 1667d30..b672d46 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -217,8 +217,6 @@ class UDPDispatcher(object):
 
         if reliable == True:
             circuit.prepare_packet(packet, PackFlags.LL_RELIABLE_FLAG, retries)
-            if circuit.unack_packet_count <= 0:
-                self.circuit_manager.unacked_circuits[host] = circuit
         elif retrying == True:
             circuit.prepare_packet(packet, PackFlags.LL_RESENT_FLAG)
         else:
@@ -246,6 +244,9 @@ class UDPDispatcher(object):
 
             self.packets_out += 1
 
+            if reliable == True and retries > 0:
+                circuit.resend_buffers[packet.packet_id] = (send_buffer, retries)
+
             return send_buffer
 
         except AssertionError:
@@ -271,22 +272,23 @@ class UDPDispatcher(object):
         #now_time = get_time_now()
 
         #go through all circuits in the map
-        for circuit in self.circuit_manager.unacked_circuits.values():
-
-            for unacked_packet in circuit.unacked_packets.values():
+        for circuit in self.circuit_manager.circuit_map.values():
 
-                unacked_packet.retries -= 1
-                #is this correct? should it be serialized or something?
-                #self.reset_send_buffer()
+            for packet_id, (send_buffer, retries) in sorted(circuit.resend_buffers.items()):
 
-                self.send_buffer = ''
-                self.send_buffer += unacked_packet.buffer
-                self.send_retry(unacked_packet.host, unacked_packet.buffer)
+                #it's the same packet, with the same packet_id, but for the flag
+                if retries > 1:
+                    circuit.resend_buffers[packet_id] = (send_buffer, retries - 1)
+                else:
+                    del circuit.resend_buffers[packet_id]
 
-                if unacked_packet.retries <= 0:
+                send_flags = chr(ord(send_buffer[0]) | PackFlags.LL_RESENT_FLAG)
 
-                    circuit.final_retry_packets[unacked_packet.packet_id] = unacked_packet
-                    del circuit.unacked_packets[unacked_packet.packet_id]
+                try:
+                    self.udp_client.send_packet(self.socket, send_flags + send_buffer[1:], circuit.host)
+                    self.packets_out += 1
+                except Exception, error:
+                    logger.warning("Error trying to resend packet %s: %s" % (packet_id, error))
 
             #final retries aren't resent, they are just forgotten about. boo
             #for unacked_packet in circuit.final_retry_packets.values():
-- 
2.43.0


From 0d383608d791980ea3c104c8026f9b1f2365c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 39/61] fix: give parsed Low frequency templates their full
 message number

It was cut to one byte until a template dictionary replaced it.
---
 pyogp/lib/base/message/template_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 3f7c5dd..8b2c958 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -137,7 +137,7 @@ class MessageTemplateParser(object):
             msg_num_hex = binTemp
             msg_num = struct.unpack('>h', '\x00' + binTemp[3])[0]
         elif frequency == MsgFrequency.LOW_FREQUENCY_MESSAGE:
-            msg_num_hex = struct.pack('>BBB', 0xff, 0xff, msg_num)
+            msg_num_hex = struct.pack('>BBH', 0xff, 0xff, msg_num)
         elif frequency == MsgFrequency.MEDIUM_FREQUENCY_MESSAGE:
             msg_num_hex = struct.pack('>BB', 0xff, msg_num)
         elif frequency == MsgFrequency.HIGH_FREQUENCY_MESSAGE:
-- 
2.43.0


From 2958cb640abc7aca5e2c533d5c6d4464d3f34f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 40/61] fix: report malformed LLSD whose parser error is not
 ASCII

---
 pyogp/lib/base/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 63661af..dd2200b 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -266,7 +266,12 @@ class LLSDDeserializer(object):
             r = llsd.parse(data)
         except Exception, e:
             # the parser reports some malformed input with other exceptions than LLSDParseError
-            raise DeserializationFailed(data, str(e))
+            try:
+                reason = str(e)
+            except UnicodeError:
+                # the message quotes non-ASCII text of the input
+                reason = repr(e)
+            raise DeserializationFailed(data, reason)
         if data.strip()=='':
             raise DeserializationFailed(data, 'result was False')
         return r
-- 
2.43.0


From c4c7201d7738e50e47f98608ffde3698f6025874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 41/61] fix: log capability contents that are not ASCII

---
 pyogp/lib/base/caps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 08c46b2..8f09e67 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -90,8 +90,8 @@ class Capability(object):
 
         data = deserializer.deserialize(response.body)
 
-        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %s' % (self.public_url, response.body.strip()))
-        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Get of cap %s response is: %s' % (self.public_url, data))        
+        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %r' % (self.public_url, response.body.strip()))
+        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Get of cap %s response is: %r' % (self.public_url, data))        
 
         return data
 
@@ -111,7 +111,7 @@ class Capability(object):
         content_type = serializer.content_type
         serialized_payload = serializer.serialize()
 
-        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Posting the following payload to %s: %s' % (self.public_url, serialized_payload))
+        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Posting the following payload to %s: %r' % (self.public_url, serialized_payload))
 
         headers = {"Content-type" : content_type}
         headers.update(custom_headers)  # give the user the ability to add headers 
@@ -162,8 +162,8 @@ class Capability(object):
 
         data = deserializer.deserialize(response.body)
 
-        if self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %s' % (self.public_url, response.body.strip()))
-        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Post to cap %s response is: %s' % (self.public_url, data))        
+        if self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %r' % (self.public_url, response.body.strip()))
+        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Post to cap %s response is: %r' % (self.public_url, data))        
 
         return data
 
-- 
2.43.0


From 15f8b139a4a612bd51b04dc88b38fd72dbf332f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 42/61] fix: render messages with unicode names and non-ASCII
 data

---
 pyogp/lib/base/message/message.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index 23e6e33..bcd6b26 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -178,14 +178,20 @@ class Message(MessageBase):
         string = ''
         delim = '    '
 
+        def as_str(name):
+            # names may be unicode, which does not mix with the bytes of the data
+            if isinstance(name, unicode):
+                return name.encode('utf-8')
+            return name
+
         for k in self.__dict__:
 
             if k == 'name':
-                string += '\nName: %s\n' % (self.name)
+                string += '\nName: %s\n' % (as_str(self.name),)
             if k == 'blocks':
 
                 for ablock in self.blocks:
-                    string += "%sBlock Name:%s%s\n" % (delim, delim, ablock)
+                    string += "%sBlock Name:%s%s\n" % (delim, delim, as_str(ablock))
                     for somevars in self.blocks[ablock]:
 
                         for avar in somevars.var_list:
@@ -195,7 +201,7 @@ class Message(MessageBase):
                             #    string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, hexlify(zvar.data))
                             #except TypeError:
                             #    string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, zvar.data)
-                            string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, zvar)
+                            string += "%s%s%s:%s%s\n" % (delim, delim, as_str(zvar.name), delim, zvar)
 
         return string
 
-- 
2.43.0


From 4e3b8dd648fb2857455812c32fbf273ea578689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 43/61] fix: log packets with unicode names and non-ASCII data

---
 pyogp/lib/base/helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index dd2200b..85b39f8 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -147,7 +147,13 @@ class Helpers(object):
     def log_packet(packet, _object):
         """ default logging function for packets  """
 
-        logger.info("Object %s is monitoring packet type %s: \n%s" % (type(_object), packet.name, packet.data()))
+        name = packet.name
+
+        # event queue messages have unicode names, which do not mix with the bytes of the data
+        if isinstance(name, unicode):
+            name = name.encode('utf-8')
+
+        logger.info("Object %s is monitoring packet type %s: \n%s" % (type(_object), name, packet.data()))
 
     @staticmethod
     def log_event_queue_data(data, _object):
-- 
2.43.0


From a12e76ca920369c23508eacaf249abff6d705db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 44/61] fix: ignore comments behind other text in the message
 template

---
 pyogp/lib/base/message/template_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 8b2c958..67efcce 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -65,7 +65,7 @@ class MessageTemplateParser(object):
         block_header_re = '.*?(\w+)\s+(\w+)(\s+(\d+))?.*'
         message_header_re = '.*?(\w+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\w+)(\s+(\w+))?.*'
         version_re = "version.(.+)"
-        comment_re = "^\s*//.*$"
+        comment_re = "//.*"
 
         current_template = None
         current_block = None
@@ -76,8 +76,9 @@ class MessageTemplateParser(object):
                 line = lines.next()
             except StopIteration:
                 break
-            if re.match(comment_re, line):
-                continue
+
+            # comments may follow the text they explain
+            line = re.sub(comment_re, '', line)
 
             start = re.match(start_re, line)
             end = re.match(end_re, line)
-- 
2.43.0


From 10ab3227a254c398707ef7fb744d4a0bbac3fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 45/61] fix: report template fields without a valid size as
 parsing errors

---
 pyogp/lib/base/message/template_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 67efcce..ade7cf4 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -249,6 +249,9 @@ class MessageTemplateParser(object):
             elif type_string == 'Variable':
                 var_type = MsgType.MVT_VARIABLE
 
+            if match.group(4) == None:
+                raise exc.MessageTemplateParsingError("variable %s has no valid size" % (match.group(1)))
+
             var_size = int(match.group(4))
             if var_size <= 0:
                 raise exc.MessageTemplateParsingError("variable size %s does not match %s" % (var_size, type_string))
-- 
2.43.0


From e0d89879bf7bcc36521ad610e083490fc2fbc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 46/61] fix: let waits in the main loop end

---
 pyogp/lib/base/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 85b39f8..f415a01 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -313,10 +313,12 @@ class Wait(object):
 
             try:
                 api.sleep()
-                now = time.time()
             except AssertionError:
+                # there is no yielding in the main loop, but time passes
                 pass
 
+            now = time.time()
+
         return True
 
     def stop(self):
-- 
2.43.0


From 386dd04ffe1e977098ff44774c2607e1604dacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 47/61] fix: render errors whose parameter is a tuple

---
 pyogp/lib/base/exc.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyogp/lib/base/exc.py b/pyogp/lib/base/exc.py
index f9b4cae..570916a 100644
--- a/pyogp/lib/base/exc.py
+++ b/pyogp/lib/base/exc.py
@@ -33,7 +33,7 @@ class LoginError(Error):
         self.error = error
 
     def __str__(self):
-        return "Agent login error: %s" % (self.error)
+        return "Agent login error: %s" % (self.error,)
 
 class ParseStartLocError(LoginError):
     """ raised when the is an error in parsing the user specified start location """
@@ -116,7 +116,7 @@ class DeserializerNotFound(DeserializationError):
         self.content_type = content_type
 
     def __str__(self):
-        return "deserialization for '%s' not supported" % (self.content_type)
+        return "deserialization for '%s' not supported" % (self.content_type,)
 
 class CredentialDeserializerNotFound(DeserializationError):
     """raised if a deserializer for a certain content type couldn't be found
@@ -128,7 +128,7 @@ class CredentialDeserializerNotFound(DeserializationError):
         self.payload = payload
 
     def __str__(self):
-        return "deserialization for payload '%s' not supported" % (self.payload)
+        return "deserialization for payload '%s' not supported" % (self.payload,)
 
 class DeserializationFailed(DeserializationError):
     """raised if a deserializer couldn't deserialize a payload
@@ -161,7 +161,7 @@ class MessageTemplateNotFound(MessageSystemError):
         self.template = template
 
     def __str__(self):   
-        return "No message template found, context: '%s'" % (self.context)
+        return "No message template found, context: '%s'" % (self.context,)
 
 class MessageTemplateParsingError(MessageSystemError):
     """ message template parsing error
@@ -174,7 +174,7 @@ class MessageTemplateParsingError(MessageSystemError):
         self.template = template
 
     def __str__(self):   
-        return "Error parsing message template, context: '%s'" % (self.context)
+        return "Error parsing message template, context: '%s'" % (self.context,)
 
 class CircuitNotFound(MessageSystemError):
     """ circuit to host could not be found
@@ -302,7 +302,7 @@ class RegionSeedCapNotAvailable(RegionDomainError):
         self.reason = reason
 
     def __str__(self):   
-        return "Region seed capability not found when %s'" % (self.reason)  
+        return "Region seed capability not found when %s'" % (self.reason,)  
 
 class RegionCapNotAvailable(RegionDomainError):
     """an error raised in case a user couldn't be authorized
@@ -330,7 +330,7 @@ class RegionMessageError(RegionDomainError):
         self.region = region
 
     def __str__(self):   
-        return "Agent has no udp connection enabled for: %s'" % (self.region)
+        return "Agent has no udp connection enabled for: %s'" % (self.region,)
 
 ### General errors
 
@@ -345,7 +345,7 @@ class DataParsingError(Error):
         self.error = error
 
     def __str__(self):   
-        return "Data parsing error: %s'" % (self.error)
+        return "Data parsing error: %s'" % (self.error,)
 
 class NotImplemented(Error):
     """ an error raised when method is not implemented """
@@ -356,7 +356,7 @@ class NotImplemented(Error):
         self.error = error
 
     def __str__(self):
-        return "This method has to be implemented here: %s" % (self.error)
+        return "This method has to be implemented here: %s" % (self.error,)
 
 class Deprecated(Error):
     """ an error raised when method is not implemented """
@@ -367,6 +367,6 @@ class Deprecated(Error):
         self.thing = thing
 
     def __str__(self):
-        return "This thing is deprecated: %s" % (self.thing)
+        return "This thing is deprecated: %s" % (self.thing,)
 
 
-- 
2.43.0


From 6c5dff4a35198c1f64a77ccfa11faed754c4a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 48/61] fix: unpack vectors and quaternions in the byte order
 asked for

---
 pyogp/lib/base/message/data_unpacker.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_unpacker.py b/pyogp/lib/base/message/data_unpacker.py
index db47b18..c8fbb1b 100644
--- a/pyogp/lib/base/message/data_unpacker.py
+++ b/pyogp/lib/base/message/data_unpacker.py
@@ -88,9 +88,15 @@ class DataUnpacker(object):
         size = len(tup) / struct.calcsize(tp)
         return struct.unpack(endian + str(size) + tp, tup)
 
+    def __to_little_endian(self, endian, data):
+        # the datatypes unpack little endian floats only
+        if endian == EndianType.LITTLE:
+            return data
+        return ''.join([data[i:i+4][::-1] for i in range(0, len(data), 4)])
+
     def __unpack_vector3(self, endian, vec, var_size=None):
         #return self.__unpack_tuple(endian, vec, 'f')
-        return Vector3(vec, 0)
+        return Vector3(self.__to_little_endian(endian, vec), 0)
 
     def __unpack_vector3d(self, endian, vec, var_size=None):
         return self.__unpack_tuple(endian, vec, 'd')
@@ -102,7 +108,7 @@ class DataUnpacker(object):
         #first, pack to vector3
         #print "WARNING: UNPACKING A QUAT...."
         #vec = quat_to_vec3(quat)
-        return Quaternion(quat, 0)
+        return Quaternion(self.__to_little_endian(endian, quat), 0)
 
     def __unpack_uuid(self, endian, uuid_data, var_size=None):
         # return datatypes.UUID
-- 
2.43.0


From 9180cc654def3d12436899910175c564a819e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 49/61] fix: report vectors cut short as unpacking errors

---
 pyogp/lib/base/message/data_unpacker.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyogp/lib/base/message/data_unpacker.py b/pyogp/lib/base/message/data_unpacker.py
index c8fbb1b..7e4264c 100644
--- a/pyogp/lib/base/message/data_unpacker.py
+++ b/pyogp/lib/base/message/data_unpacker.py
@@ -84,9 +84,9 @@ class DataUnpacker(object):
 
         return None
 
-    def __unpack_tuple(self, endian, tup, tp, var_size=None):
-        size = len(tup) / struct.calcsize(tp)
-        return struct.unpack(endian + str(size) + tp, tup)
+    def __unpack_tuple(self, endian, tup, tp, size):
+        # (what follows the vector is ignored, a part of a vector is not enough)
+        return struct.unpack(endian + str(size) + tp, tup[:size * struct.calcsize(tp)])
 
     def __to_little_endian(self, endian, data):
         # the datatypes unpack little endian floats only
@@ -99,10 +99,10 @@ class DataUnpacker(object):
         return Vector3(self.__to_little_endian(endian, vec), 0)
 
     def __unpack_vector3d(self, endian, vec, var_size=None):
-        return self.__unpack_tuple(endian, vec, 'd')
+        return self.__unpack_tuple(endian, vec, 'd', 3)
 
     def __unpack_vector4(self, endian, vec, var_size=None):
-        return self.__unpack_tuple(endian, vec, 'f')
+        return self.__unpack_tuple(endian, vec, 'f', 4)
 
     def __unpack_quat(self, endian, quat, var_size=None):
         #first, pack to vector3
-- 
2.43.0


From 65ec9325938cb6f997576cc813ac69f344f75668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 50/61] fix: keep acks collected while others are being sent

---
 pyogp/lib/base/message/udpdispatcher.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index b672d46..659997c 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -304,7 +304,11 @@ class UDPDispatcher(object):
             acks_this_packet = 0
             msg = None
 
-            for packet_id in circuit.acks:
+            # more may be collected while these are being sent
+            acks = circuit.acks
+            count = len(acks)
+
+            for packet_id in acks[:count]:
 
                 if acks_this_packet == 0:
 
@@ -327,7 +331,8 @@ class UDPDispatcher(object):
 
                 self.send_message(msg, circuit.host)
 
-            circuit.acks = []
+            if circuit.acks is acks:
+                circuit.acks = acks[count:]
 
     def has_unacked(self):
         for circuit in self.circuit_manager.circuit_map.values():
-- 
2.43.0


From 148093eb4aa9bad6bdbe39bf60db42fd69e161c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 51/61] fix: resend no packet acked while another one was being
 resent

---
 pyogp/lib/base/message/udpdispatcher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 659997c..63489f4 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -274,7 +274,12 @@ class UDPDispatcher(object):
         #go through all circuits in the map
         for circuit in self.circuit_manager.circuit_map.values():
 
-            for packet_id, (send_buffer, retries) in sorted(circuit.resend_buffers.items()):
+            for packet_id in sorted(circuit.resend_buffers):
+
+                # it may have been acked while another one was being sent
+                if packet_id not in circuit.resend_buffers:
+                    continue
+                send_buffer, retries = circuit.resend_buffers[packet_id]
 
                 #it's the same packet, with the same packet_id, but for the flag
                 if retries > 1:
-- 
2.43.0


From 708e8cb2c4b9ea67627b89818f1ca37ac6efdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:08 +0000
Subject: [PATCH 52/61] fix: keep a reliable packet under the id it was sent
 with

---
 pyogp/lib/base/message/udpdispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 63489f4..7c2f427 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -222,6 +222,9 @@ class UDPDispatcher(object):
         else:
             circuit.prepare_packet(packet)
 
+        #the packet may be sent again while we are sending it
+        packet_id = packet.packet_id
+
         try:
             send_buffer = self.udp_serializer.serialize(packet)
 
@@ -245,7 +248,7 @@ class UDPDispatcher(object):
             self.packets_out += 1
 
             if reliable == True and retries > 0:
-                circuit.resend_buffers[packet.packet_id] = (send_buffer, retries)
+                circuit.resend_buffers[packet_id] = (send_buffer, retries)
 
             return send_buffer
 
-- 
2.43.0


From c29b091ae8a76f72b98fb89603123fa91bf15a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:04 +0000
Subject: [PATCH 53/61] fix: resend no packet acked before its send returned

---
 pyogp/lib/base/message/udpdispatcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 7c2f427..58ac80c 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -247,7 +247,8 @@ class UDPDispatcher(object):
 
             self.packets_out += 1
 
-            if reliable == True and retries > 0:
+            #(it may have been acked before the send returned)
+            if reliable == True and retries > 0 and packet_id in circuit.unacked_packets:
                 circuit.resend_buffers[packet_id] = (send_buffer, retries)
 
             return send_buffer
-- 
2.43.0


From cdbea8e653dba1c4054a3010fe6361989688a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:16 +0000
Subject: [PATCH 54/61] fix: ack rounds forget circuits removed while they are
 sending

---
 pyogp/lib/base/message/udpdispatcher.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 58ac80c..66a22e3 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -280,6 +280,10 @@ class UDPDispatcher(object):
 
             for packet_id in sorted(circuit.resend_buffers):
 
+                # its circuit may have been removed while another one was being sent
+                if self.circuit_manager.get_circuit(circuit.host) is not circuit:
+                    break
+
                 # it may have been acked while another one was being sent
                 if packet_id not in circuit.resend_buffers:
                     continue
@@ -319,6 +323,11 @@ class UDPDispatcher(object):
 
             for packet_id in acks[:count]:
 
+                # it may have been removed while others were being sent
+                if self.circuit_manager.get_circuit(circuit.host) is not circuit:
+                    acks_this_packet = 0
+                    break
+
                 if acks_this_packet == 0:
 
                     msg = Message('PacketAck')
-- 
2.43.0


From 6226554d61211c0584304d9c4b0e614015814fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:03 +0000
Subject: [PATCH 55/61] fix: receive datagrams of more than 10000 bytes whole

---
 pyogp/lib/base/network/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index ce40ddd..a0727ba 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -42,7 +42,7 @@ class NetUDPClient(object):
         bytes = sock.sendto(send_buffer, (host.ip, host.port))
 
     def receive_packet(self, sock):
-        buf = 10000
+        buf = 65536
         try:
             data, addr = sock.recvfrom(buf)
             #print "Received data: " + repr(data)
-- 
2.43.0


From 8e571e699eda51cf17e4db5b9ba2e04566f3d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:30 +0000
Subject: [PATCH 56/61] fix: parse LLSD responses whose content type has a
 space before its parameters

---
 pyogp/lib/base/caps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 8f09e67..d77b7c8 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -80,7 +80,7 @@ class Capability(object):
 
         # now deserialize the data again
         content_type_charset = response.headers['Content-Type']
-        content_type = content_type_charset.split(";")[0] # remove the charset part
+        content_type = content_type_charset.split(";")[0].strip() # remove the charset part
 
         # ToDo: write a generic serializer/deserializer
         if (content_type == 'application/llsd+xml'):
@@ -147,7 +147,7 @@ class Capability(object):
         # now deserialize the data again, we ask for a utility with the content type
         # as the name
         content_type_charset = response.headers['Content-Type']
-        content_type = content_type_charset.split(";")[0] # remove the charset part
+        content_type = content_type_charset.split(";")[0].strip() # remove the charset part
 
         pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*')
         # ToDo: write a generic serializer/deserializer
-- 
2.43.0


From 507cdb7370aee2597b0e97b800ddb648d2f4d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:23 +0000
Subject: [PATCH 57/61] fix: report responses without a content type as having
 no deserializer

---
 pyogp/lib/base/caps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index d77b7c8..c04e627 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -79,7 +79,7 @@ class Capability(object):
                 raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method="GET")
 
         # now deserialize the data again
-        content_type_charset = response.headers['Content-Type']
+        content_type_charset = response.headers.get('Content-Type', '')
         content_type = content_type_charset.split(";")[0].strip() # remove the charset part
 
         # ToDo: write a generic serializer/deserializer
@@ -146,7 +146,7 @@ class Capability(object):
     def _response_handler(self, response):
         # now deserialize the data again, we ask for a utility with the content type
         # as the name
-        content_type_charset = response.headers['Content-Type']
+        content_type_charset = response.headers.get('Content-Type', '')
         content_type = content_type_charset.split(";")[0].strip() # remove the charset part
 
         pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*')
-- 
2.43.0


From 775f28a01291746a8d5323cbcd3cc1c1a5a7ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:36 +0000
Subject: [PATCH 58/61] fix: render messages as LLSD by the dict form they have

---
 pyogp/lib/base/message/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index bcd6b26..fbc1320 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -170,7 +170,7 @@ class Message(MessageBase):
         TypeError: invalid type
         '''
         
-        return llsd.format_xml(self.as_dict())
+        return llsd.format_xml(self.to_dict())
 
     def data(self):
         """ a string representation of a packet """
-- 
2.43.0


From e300edc07202e2c2017da0dc7e0f670b47c94f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:01 +0000
Subject: [PATCH 59/61] fix: read the version of a template from an indented
 line

---
 pyogp/lib/base/message/template_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index ade7cf4..3216d04 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -64,7 +64,7 @@ class MessageTemplateParser(object):
         block_data_re = '.*?(\w+)\s+(\w+)(\s+(\d+))?.*'
         block_header_re = '.*?(\w+)\s+(\w+)(\s+(\d+))?.*'
         message_header_re = '.*?(\w+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\w+)(\s+(\w+))?.*'
-        version_re = "version.(.+)"
+        version_re = "\s*version\s+(\d.*)"
         comment_re = "//.*"
 
         current_template = None
-- 
2.43.0


From 095269490780379f5930b1e36078a5312f2ae447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:27 +0000
Subject: [PATCH 60/61] fix: keep circuits at their address when the caller's
 host object changes

---
 pyogp/lib/base/message/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 45d8fdc..4e571bc 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -45,7 +45,8 @@ class Circuit(object):
         unacked packet count/bytes, acked packet count/bytes"""
 
     def __init__(self, host, pack_in_id):
-        self.host = host
+        # (a copy: the circuit stays with its address whatever the caller's becomes)
+        self.host = Host((host.ip, host.port))
         self.circuit_code = 0
         self.session_id = 0
         self.is_alive = True
-- 
2.43.0


From 6a951635ff11427016e1b528676496755ba76626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:51 +0000
Subject: [PATCH 61/61] fix: take the default flavor for messages of
 message.xml without one

---
 pyogp/lib/base/message/message_dot_xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/message_dot_xml.py b/pyogp/lib/base/message/message_dot_xml.py
index 33a6ec2..7fc5824 100644
--- a/pyogp/lib/base/message/message_dot_xml.py
+++ b/pyogp/lib/base/message/message_dot_xml.py
@@ -54,7 +54,8 @@ class MessageDotXML(object):
         """ checks whether a message is allowed over UDP or not """
 
         if self.messages.has_key(msg_name):
-            if self.messages[msg_name]['flavor'] == 'template':
+            # (the flavor is 'template' by default)
+            if self.messages[msg_name].get('flavor', 'template') == 'template':
                 return True
             else:
                 return False
-- 
2.43.0

