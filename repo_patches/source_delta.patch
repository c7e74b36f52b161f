From 83d5cd3dd0b11997e19adddd32536da48667740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 01/35] fix: match any frame in linear time

The nested repetitions of the generic frame pattern made the time to reject a
malformed frame exponential in its length (22 digits followed by a letter: >1 s).
The simpler pattern accepts the same language.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..041ac69 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From 6305ce1c190e9440155f0062af3c75297b0162a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 02/35] fix: parse frames with an unknown WHO as generic
 messages

parse_message documents that a frame whose WHO is unknown gives a GenericMessage,
but it let the ValueError of the Who enum escape.
---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 041ac69..b50bf51 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # unknown WHO tag
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From 725f7c8372c4ea0a054d7511251ac608d42df363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 03/35] fix: parse back every dimension frame the library can
 build

A dimension request or writing with parameters (e.g. *#18*51*52#21#3##,
*#18*51*#1200#1*5##) was parsed as a response or rejected, and a dimension
writing or response without values was rendered with a trailing separator.
---
 pyown/messages/dimension.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..6c3fa11 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,7 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?##$")
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
@@ -61,7 +61,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
@@ -90,7 +90,7 @@ class DimensionWriting(BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*#{self.dimension}{''.join([f'*{value}' for value in self.values])}##"
 
     @classmethod
     def parse(cls, tags: list[str]) -> Self:
@@ -122,4 +122,4 @@ class DimensionResponse(DimensionWriting, BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*{self.dimension}{''.join([f'*{value}' for value in self.values])}##"
-- 
2.43.0


From 3f1883dd53243c8c9f704680f360e08bebcbb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 04/35] fix: make generic messages hashable

GenericMessage keeps its tags in a list, so hash() raised a TypeError.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index b50bf51..e1408f0 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From fa9cd4c332228cbb11ad098b7f3914ff2bf64af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 05/35] fix: reject tags that contain the frame terminator

A tag with ## inside was accepted, so a single message could be sent as several frames.
---
 pyown/tags/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyown/tags/base.py b/pyown/tags/base.py
index 4bfcfcf..fb51299 100644
--- a/pyown/tags/base.py
+++ b/pyown/tags/base.py
@@ -17,7 +17,8 @@ VALID_TAG_CHARS: Final[str] = "0123456789#"
 def is_valid_tag(tag: str) -> bool:
     """Checks if the tag is valid.
 
-    A tag is valid if it contains only the characters defined in the VALID_TAG_CHARS constant.
+    A tag is valid if it contains only the characters defined in the VALID_TAG_CHARS constant
+    and does not contain the frame terminator (##).
 
     Args:
         tag (str): The tag to check
@@ -25,7 +26,7 @@ def is_valid_tag(tag: str) -> bool:
     Returns:
         bool: True if the tag is valid, False otherwise
     """
-    return all(c in VALID_TAG_CHARS for c in tag)
+    return all(c in VALID_TAG_CHARS for c in tag) and "##" not in tag
 
 
 class Tag:
-- 
2.43.0


From 3b1df9a0e309c1b512d3f8a624f7e59da029b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 06/35] fix: give every WHO a name

Who.name raised a KeyError for five members of the enum.
---
 pyown/tags/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/who.py b/pyown/tags/who.py
index 0c26fb0..7d7eefa 100644
--- a/pyown/tags/who.py
+++ b/pyown/tags/who.py
@@ -81,15 +81,20 @@ who_map: Final[dict[Who, str]] = {
     Who.LOAD_CONTROL: "Load control",
     Who.THERMOREGULATION: "Thermoregulation",
     Who.BURGLAR_ALARM: "Burglar alarm",
+    Who.DOOR_ENTRY_SYSTEM: "Door entry system",
     Who.VIDEO_DOOR_ENTRY: "Video door entry",
+    Who.AUXILIARY: "Auxiliary",
     Who.GATEWAY: "Gateway management",
+    Who.ACTUATORS_LOCKS: "Actuators and locks",
     Who.CEN_1: "CEN",
     Who.SOUND_DIFFUSION_1: "Sound diffusion 1",
     Who.MH200N_SCENE: "MH200N Scene",
     Who.ENERGY_MANAGEMENT: "Energy management",
     Who.SOUND_DIFFUSION_2: "Sound diffusion 2",
+    Who.LIGHTING_MANAGEMENT: "Lighting management",
     Who.CEN_2: "CEN plus / scenarios plus / dry contacts",
     Who.AUTOMATION_DIAGNOSTICS: "Automation diagnostics",
     Who.THERMOREGULATION_DIAGNOSTICS: "Thermoregulation diagnostics",
     Who.DEVICE_DIAGNOSTICS: "Device diagnostics",
+    Who.ENERGY_DIAGNOSTICS: "Energy diagnostics",
 }
-- 
2.43.0


From d97c07ad5fa20226c584d6213641fda4bb350c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 07/35] fix: classify WHERE tags with a local bus interface

General (0#4#I), area (A#4#I) and group (#G#4#I) addresses of a local bus raised a
ValueError or were reported as light points.
---
 pyown/tags/where.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/where.py b/pyown/tags/where.py
index 376eb34..4c5d39b 100644
--- a/pyown/tags/where.py
+++ b/pyown/tags/where.py
@@ -39,6 +39,11 @@ class Where(TagWithParameters):
             WhereType: The type of the WHERE tag.
         """
         # TODO: Refactor this method and write tests for it.
+        if self.parameters[-2:-1] == ["4"] and len(self.parameters) == (2 if self.tag else 3):
+            # the address is on a local bus, what it indicates is before #4#<interface>
+            address = Where(self.string.rsplit("#", 2)[0])
+            return WhereType.LOCAL_BUS if address == "0" else address.type
+
         if self.string == "0":
             return WhereType.GENERAL
         elif self.string in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
-- 
2.43.0


From a156d223e6a86a5abd145d8012a4de71c8d2c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 08/35] fix: compute the HMAC digests as documented

docs/original/hmac.md: HMAC(...) is the SHA function applied to the text Ra Rb A B Kab
(client) and Ra Rb Kab (server), not a keyed HMAC, and Ra comes first in both.
---
 pyown/auth/hmac.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 1dc0b96..41bc9ca 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -1,5 +1,5 @@
 from hashlib import sha1, sha256
-from hmac import HMAC, compare_digest
+from hmac import compare_digest
 from secrets import token_bytes
 
 from .enum import AuthAlgorithm
@@ -45,13 +45,8 @@ def client_hmac(
     kab = hash_function(password.encode()).hexdigest()
     hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
 
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
-
-    return hmac.digest()
+    # the "HMAC" of the OpenWebNet documentation is the plain hash function
+    return hash_function(hmac_message.encode()).digest()
 
 
 def server_hmac(
@@ -79,15 +74,10 @@ def server_hmac(
         raise ValueError("Invalid hash algorithm")
 
     kab = hash_function(password.encode()).hexdigest()
-    hmac_message = f"{client_key}{server_key}{kab}"
-
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
+    hmac_message = f"{server_key}{client_key}{kab}"
 
-    return hmac.digest()
+    # the "HMAC" of the OpenWebNet documentation is the plain hash function
+    return hash_function(hmac_message.encode()).digest()
 
 
 def compare_hmac(
-- 
2.43.0


From e7a4eea1029d16a9f01146abae7e6a381bfbf0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 09/35] fix: complete the HMAC handshake with a conforming
 gateway

The server key was used without removing the # prefix and decoding its digits, the
client answer lacked the # prefix, and the server confirmation was encoded again
instead of being compared, so the handshake failed (usually with a ValueError).
---
 pyown/client/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..d6bfeaf 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -170,7 +171,11 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        try:
+            # the server key is sent as *#Ra##, with two digits for each hexadecimal digit
+            server_key = digits_to_hex(str(resp.tags[0]).removeprefix("#"))
+        except (ValueError, IndexError):
+            raise InvalidAuthentication("Invalid server key")
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -191,7 +196,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -200,7 +205,10 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(
+            hex_to_digits(server_auth.hex()).encode(),
+            str(resp.tags[0]).removeprefix("#").encode(),
+        ):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
-- 
2.43.0


From 2d876dc32034e4445edb65f00b4b977f9f6e764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 10/35] fix: reassemble messages split across packets

TCP does not preserve message boundaries: a message split in two packets was parsed
as two unrelated messages (or closed the connection), and the valid messages that
preceded a malformed one in the same packet were lost.
---
 pyown/protocol/protocol.py | 40 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..5732975 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -1,9 +1,10 @@
 import asyncio
 import logging
+import re
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidMessage, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -12,6 +13,9 @@ __all__ = [
 
 log = logging.getLogger("pyown.protocol")
 
+# What can follow the last complete message of a packet
+PARTIAL_MESSAGE = re.compile(r"\s*(?:#|\*[0-9#*]*)?")
+
 
 class OWNProtocol(Protocol):
     """Asyncio protocol for the OpenWebNet TCP connection.
@@ -40,6 +44,9 @@ class OWNProtocol(Protocol):
         # The queue was chosen because it supports both synchronous and asynchronous functions
         self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
 
+        # The beginning of a message that is not complete yet
+        self._partial = ""
+
         self._lock = Lock()
 
     def connection_made(self, transport: BaseTransport):
@@ -66,33 +73,40 @@ class OWNProtocol(Protocol):
 
         The data argument is a bytes object containing the incoming data.
         It tries to parse the data, and if a valid message is found, it is added to the message queue.
+        A message can be split in more packets, it's added to the queue when its last part is received.
 
         Args:
             data (bytes): The incoming data
         """
         # In OpenWebNet, the message is always written with ascii characters
+        not_ascii: UnicodeDecodeError | None = None
         try:
-            text = data.decode("ascii").strip()
+            text = data.decode("ascii")
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
-            raise e
+            text, not_ascii = data[: e.start].decode("ascii"), e
+
+        # Sometimes multiple messages can be sent in the same packet, and the last one can be incomplete
+        *messages, partial = (self._partial + text).split("##")
+        self._partial = ""
 
-        # Sometimes multiple messages can be sent in the same packet
         try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
+            for msg in messages:
+                if msg.strip():
+                    message = parse_message(msg + "##")
+                    log.debug(f"Received message: {message}")
+                    self._messages_queue.put_nowait(message)
+
+            if PARTIAL_MESSAGE.fullmatch(partial) is None:
+                raise InvalidMessage(partial)
         except ParseError as e:
             log.warning(f"Received invalid message: {e}")
             raise e
 
-        # If there are no messages, return
-        if not messages:
-            return
-
-        log.debug(f"Received messages: {messages}")
+        if not_ascii is not None:
+            raise not_ascii
 
-        # Call the on_message_received future
-        for msg in messages:
-            self._messages_queue.put_nowait(msg)
+        self._partial = partial
 
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
-- 
2.43.0


From 6b5647750e5fce126a5248736dc1728b5ef71ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 11/35] fix: do not block the senders forever when the
 connection is lost

A message waiting for the transport to resume writing never returned if the
connection was lost in the meantime.
---
 pyown/protocol/protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 5732975..c75e886 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -63,6 +63,9 @@ class OWNProtocol(Protocol):
             log.info(f"Connection lost with exception: {exc}")
         else:
             log.info("Connection lost")
+        if self._lock.locked():
+            # the transport will never resume writing
+            self._lock.release()
         if exc is None:
             self._on_connection_end.set_result(None)
         else:
-- 
2.43.0


From 06f4cbf65414496f3f438640bb4ea65d6566987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 12/35] fix: end the event loop when the connection is dropped
 or closed

Client.loop() waited forever for a message from a connection that had been lost or
closed.
---
 pyown/client/client.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..7f27400 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -112,10 +112,24 @@ class Client(BaseClient):
             client = self
 
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        connection_end = self._on_connection_end
+        while True:
+            # by putting timeout as None, it will wait indefinitely for a message
+            reader = self._loop.create_task(self.read_message(timeout=None))
             try:
-                # by putting timeout as None, it will wait indefinitely for a message
-                message = await self.read_message(timeout=None)
+                await asyncio.wait({reader, connection_end}, return_when=asyncio.FIRST_COMPLETED)
+            finally:
+                reader.cancel()
+
+            if not reader.done():
+                # all the messages received before the end of the connection have been dispatched
+                break
+
+            try:
+                message = reader.result()
+            except InvalidSession:
+                # the client was closed by a callback
+                break
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
-- 
2.43.0


From ec46439cd205c05871851efc317ae612498cee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 13/35] fix: allow to start a client again after it was closed

The second start() raised an InvalidStateError inside the protocol and then timed out.
---
 pyown/client/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index d6bfeaf..f4c2852 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -86,6 +86,11 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        if self._on_connection_start.done():
+            # the client was already used for another connection
+            self._on_connection_start = self._loop.create_future()
+            self._on_connection_end = self._loop.create_future()
+
         try:
             self._transport, self._protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
-- 
2.43.0


From 06a083d59582fc8e281df31d32b2241137d184a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 14/35] fix: keep the event loop running after an unsupported
 energy WHERE

An event from an address that EnergyManagement does not support (InvalidTag, or an
IndexError for a 7N address without #0) terminated Client.loop().
---
 pyown/client/client.py       | 3 +++
 pyown/items/energy/energy.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 7f27400..520130e 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -153,6 +153,9 @@ class Client(BaseClient):
             except KeyError:
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
+            except InvalidTag as e:
+                log.warning(f"Tag not supported {e.tag}")
+                continue
 
             await self._dispatch_callbacks(item, message)
 
diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..77c1eea 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters[:1] == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From 2c445d8992bff1c9bfd264466a7008b694bf67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 15/35] fix: keep the responses of concurrent commands apart

Two commands in progress on the same client, a command sent while iterating over the
responses of a request, or an iteration stopped before its end, made a command read
the responses of another one.
---
 pyown/client/base.py         |  3 ++
 pyown/items/base.py          | 78 +++++++++++++++++++++---------------
 pyown/items/camera/camera.py |  5 +--
 3 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index f4c2852..8c45a9b 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -68,6 +68,9 @@ class BaseClient(ABC):
         self._on_connection_start: Future[Transport] = self._loop.create_future()
         self._on_connection_end: Future[Exception | None] = self._loop.create_future()
 
+        # The responses do not identify the request, so only one at a time can be waiting for them
+        self.exchange_lock = asyncio.Lock()
+
     def is_cmd_session(self) -> bool:
         """Checks if the session is a command session.
 
diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2f820b2..9ee7e6f 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -197,6 +197,48 @@ class BaseItem(ABC):
         """
         return DimensionRequest((self._who, self._where, dimension))
 
+    async def _send_command(self, message: BaseMessage) -> None:
+        """Sends a message to the server and check that it's acknowledged.
+
+        Args:
+            message: The message to send.
+
+        Raises:
+            ResponseError: If the server does not acknowledge the message.
+        """
+        async with self._client.exchange_lock:
+            await self._send_message(message)
+            resp = await self._read_message()
+
+        self._check_ack(resp)
+
+    async def _send_request(self, message: BaseMessage) -> list[BaseMessage]:
+        """Sends a request to the server and receives all its responses.
+
+        Args:
+            message: The message to send.
+
+        Returns:
+            The responses from the server, without the ACK that ends them.
+
+        Raises:
+            ResponseError: If the server responds with a NACK.
+        """
+        responses: list[BaseMessage] = []
+
+        async with self._client.exchange_lock:
+            await self._send_message(message)
+
+            while True:
+                resp = await self._read_message()
+                self._check_nack(resp)
+
+                # when the server responds with an ACK message, it means that the server has finished sending the responses
+                if resp.type == MessageType.ACK:
+                    return responses
+
+                responses.append(resp)
+
     async def send_normal_message(self, what: What | str) -> None:
         """Sends a normal message to the server and check the response.
 
@@ -206,11 +248,7 @@ class BaseItem(ABC):
         Raises:
             ResponseError: If the server does not acknowledge the message.
         """
-        msg = self.create_normal_message(what)
-        await self._send_message(msg)
-
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(self.create_normal_message(what))
 
     async def send_status_request(self) -> AsyncIterator[NormalMessage]:
         """Sends a status request and receive multiple responses from the server.
@@ -221,17 +259,7 @@ class BaseItem(ABC):
         Returns:
             The responses from the server.
         """
-        msg = self.create_status_message()
-        await self._send_message(msg)
-
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
-
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
-
+        for resp in await self._send_request(self.create_status_message()):
             if not isinstance(resp, NormalMessage):
                 raise ResponseError(f"Received {resp} instead of a normal message")
 
@@ -251,17 +279,7 @@ class BaseItem(ABC):
         if isinstance(dimension, str):
             dimension = Dimension(dimension)
 
-        msg = self.create_dimension_request_message(dimension)
-        await self._send_message(msg)
-
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
-
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
-
+        for resp in await self._send_request(self.create_dimension_request_message(dimension)):
             if not isinstance(resp, DimensionResponse):
                 raise ResponseError(f"Received {resp} instead of a dimension response message")
 
@@ -280,11 +298,7 @@ class BaseItem(ABC):
         if isinstance(dimension, str):
             dimension = Dimension(dimension)
 
-        msg = self.create_dimension_writing_message(dimension, *args)
-        await self._send_message(msg)
-
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(self.create_dimension_writing_message(dimension, *args))
 
     # TODO: Refactor this method
     async def _single_dim_req(self, what: What | Dimension) -> DimensionResponse:
diff --git a/pyown/items/camera/camera.py b/pyown/items/camera/camera.py
index feb495d..0fde963 100644
--- a/pyown/items/camera/camera.py
+++ b/pyown/items/camera/camera.py
@@ -153,10 +153,7 @@ class Camera(BaseItem):
         Args:
             what: The WHAT command to send.
         """
-        msg = GenericMessage([str(self._who), str(what)])
-        await self._send_message(msg)
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(GenericMessage([str(self._who), str(what)]))
 
     async def free_resources(self):
         """Frees audio and video resources.
-- 
2.43.0


From dd733f8ce0195d00b0d57088adb6d5c2c4960b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 16/35] fix: send the dimmer commands with a speed or a value

with_parameter() on a member of a What enum raised a ValueError, so Dimmer.turn_on,
turn_off, up_percent and down_percent failed with any argument.  The speed alone
would have been sent in the place of the value, without checking its range.
---
 pyown/items/lighting/dimmer.py | 10 ++++++++++
 pyown/tags/what.py             |  5 ++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..7b85891 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,6 +87,11 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
+        if value is None and speed is not None:
+            # the speed is the second parameter
+            value = 1
 
         what = WhatLight.UP_1_PERCENT
 
@@ -106,6 +111,11 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
+        if value is None and speed is not None:
+            # the speed is the second parameter
+            value = 1
 
         what = WhatLight.DOWN_1_PERCENT
 
diff --git a/pyown/tags/what.py b/pyown/tags/what.py
index 8107a65..8ea7ef7 100644
--- a/pyown/tags/what.py
+++ b/pyown/tags/what.py
@@ -12,4 +12,7 @@ class What(TagWithParameters):
     shutters UP, shutters DOWN, etc...)
     """
 
-    pass
+    def with_parameter(self, parameter: str | int) -> "What":
+        """Returns the tag with the specified parameter."""
+        # the subclasses are enums, their members cannot have parameters
+        return What(f"{self}#{parameter}")
-- 
2.43.0


From 5974dc5c9a06ba697cb915c3f842e48d23e5b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 17/35] fix: use the documented dimensions of the lights

docs/original/who1.md: 1 is the level at a speed, 2 the temporization, 8 the working
time and 14 the white temperature.
---
 pyown/items/lighting/base.py   | 8 ++++----
 pyown/items/lighting/dimmer.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..df712a5 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -200,7 +200,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
@@ -231,7 +231,7 @@ class BaseLight(BaseItem, ABC):
         tasks: list[Task] = []
 
         if isinstance(message, DimensionResponse):
-            if message.dimension.tag == "1":
+            if message.dimension.tag == "2":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
@@ -239,7 +239,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "1":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
@@ -254,7 +254,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 7b85891..63854b1 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -173,7 +173,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From ff0d31ad54c3cffca7d2a3f2e910c527db371e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 18/35] fix: do not report as off a light that is on

The status passed to the callbacks was False for the levels of the dimmers, for the
timed and blinking lights, and for the commands with a speed (1#x).
---
 pyown/items/lighting/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index df712a5..1efc8d8 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -261,10 +261,15 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[0].tag),
                 )
         elif isinstance(message, NormalMessage):
+            what = message.what
+            if what.tag == WhatLight.COMMAND_TRANSLATION and what.parameters:
+                # the command is in the parameter
+                what = What(what.parameters[0])
+
             tasks += cls._create_tasks(
                 cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),
                 item,
-                message.what == WhatLight.ON,
+                what.tag != WhatLight.OFF,
             )
         else:
             raise InvalidMessage(str(message))
-- 
2.43.0


From ef44c3197b8b126adc169b0938245b1ed4686e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 19/35] fix: dispatch the events of the cameras

Camera was not in the map of the supported items, so Camera.on_status_change never
called its callbacks.
---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..e2ac540 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -12,6 +13,7 @@ __all__ = ["ITEM_TYPES"]
 ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.LIGHTING: Light,
     Who.AUTOMATION: Automation,
+    Who.VIDEO_DOOR_ENTRY: Camera,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
 }
-- 
2.43.0


From a6b93a65f6e295e8d04dfcd29a2f1719567cb72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 20/35] fix: dispatch the energy events whose dimension has
 parameters

The dimension was looked up with its parameters (e.g. 511#3#15), which never matched,
so six of the energy events were never delivered.  The day of the daily totalizers and
the number of the totalizer, both documented, were not passed to the callbacks.
---
 pyown/items/energy/energy.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 77c1eea..b370018 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,7 +553,8 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        dim = DimensionEnergy(message.dimension.tag)
+        parameters = message.dimension.parameters
 
         tasks = []
         callbacks = cls._event_callbacks.get(dim, [])
@@ -561,22 +562,23 @@ class EnergyManagement(BaseItem):
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
+            day = int(parameters[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
@@ -607,8 +609,8 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.ENERGY_UNIT_PER_MONTH:
-            month = int(dim.parameters[1])
-            year = int(dim.parameters[0])
+            month = int(parameters[1])
+            year = int(parameters[0])
             energy = float(message.values[0].string)
             args = (item, month, year, energy)
         elif dim.tag == DimensionEnergy.PARTIAL_TOTALIZER_CURRENT_MONTH:
@@ -618,8 +620,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(parameters[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From 81ede3b60227c74bb3bc522f4cdae97377ac6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 21/35] fix: send the month before the day in the daily
 totalizers command

docs/original/who18.md: *18*57#<M>#<D>*where##
---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index b370018..58383c7 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -81,7 +81,7 @@ class EnergyManagement(BaseItem):
             month = datetime.now().month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
-- 
2.43.0


From 0cf75b6247fea16d1a2f85d8c6344979874ac2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 22/35] fix: read the six values of the actuator status

docs/original/who18.md: *#18*where*71*disabled*forcing*threshold*protection*phase*advanced##
---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 58383c7..1efe83f 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -302,12 +302,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=not bool(int(message.values[5].string) - 1),
         )
 
     async def get_totalizers(
-- 
2.43.0


From e7d87d713b604792847821a31dff99650e578ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 23/35] fix: decode the Stop&Go mask

docs/original/who18.md: the value is the 13 bits b13...b1.  request_status read it as a
decimal number, and the event read it from the wrong end.
---
 pyown/items/energy/energy.py  | 26 +++++++++++++-------------
 pyown/items/energy/stop_go.py |  1 +
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 1efe83f..2459c36 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -584,19 +584,19 @@ class EnergyManagement(BaseItem):
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(int(message.values[0].string[-1])),
+                failure=bool(int(message.values[0].string[-2])),
+                block=bool(int(message.values[0].string[-3])),
+                open_cc=bool(int(message.values[0].string[-4])),
+                open_ground_fault=bool(int(message.values[0].string[-5])),
+                open_vmax=bool(int(message.values[0].string[-6])),
+                self_test_off=bool(int(message.values[0].string[-7])),
+                auto_reset_off=bool(int(message.values[0].string[-8])),
+                check_off=bool(int(message.values[0].string[-9])),
+                waiting_closing=bool(int(message.values[0].string[-10])),
+                first_24h_open=bool(int(message.values[0].string[-11])),
+                power_fail_down=bool(int(message.values[0].string[-12])),
+                power_fail_up=bool(int(message.values[0].string[-13])),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..db538b4 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -77,6 +77,7 @@ class StopGo(EnergyManagement):
             match dim:
                 case DimensionEnergy.STATUS_STOP_GO_GENERAL:
                     # in this case we have a value containing a 13-bit bitmask with each bit representing one attribute
+                    val = int(msg.values[0].string, 2)
                     status.open = bool(val & 0x01)  # bit 1
                     status.failure = bool(val & 0x02)  # bit 2
                     status.block = bool(val & 0x04)  # bit 3
-- 
2.43.0


From 83221ca4e75364b75f5ad74fad25646a25049f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 24/35] fix: pass the strings of the gateway events as one
 argument

The net mask, MAC address, model and versions were passed one character per argument.
---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..d00a806 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -506,10 +506,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From cae954a95f7e6ef9fa4fd866f8299cf64535fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 25/35] fix: encode the timezone of the gateway as documented

docs/original/who13.md: one digit for the sign and two for the hours (102 is GMT-2).
Four digits were sent, and the hours of the negative offsets were wrong.
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index d00a806..efdc816 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = int(abs(tz.total_seconds())) // 3600
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From 9c9d26d7e69f9e3b6336a3926d8d11f65b599e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 26/35] fix: send the day of the week when setting the date and
 time of the gateway

docs/original/who13.md: *#13**22*H*M*S*T*W*D*M*Y##
---
 pyown/items/gateway/gateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index efdc816..f4e2735 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -399,8 +399,10 @@ class Gateway(BaseItem):
         d = Value(f"{bus_time.day:02d}")
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
+        # day of the week, 00 is Sunday
+        w = Value(f"{bus_time.isoweekday() % 7:02d}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From d9ec953f2e07f978e561ac1b02daca9960c78909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 27/35] fix: return the MAC address of the gateway in
 hexadecimal

docs/original/who13.md: the six values are decimal numbers.
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index f4e2735..c4b4579 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -276,8 +276,8 @@ class Gateway(BaseItem):
 
         oct1, oct2, oct3, oct4, oct5, oct6 = resp.values
 
-        mac = f"{oct1.string}:{oct2.string}:{oct3.string}:{oct4.string}:{oct5.string}:{oct6.string}"
-        return mac
+        octets = (oct1, oct2, oct3, oct4, oct5, oct6)
+        return ":".join(f"{int(octet.string):02X}" for octet in octets)
 
     async def get_netinfo(self) -> ipaddress.IPv4Network:
         """Combines the net mask and the IP address to get the network info.
-- 
2.43.0


From 8c9d929290b12535b54bf11ad80db3b7d6aeed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 28/35] fix: use the documented device type of the H4684

docs/original/who13.md: 13 - H4684
---
 pyown/items/gateway/gateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index c4b4579..788540a 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -44,7 +44,7 @@ class GatewayModel(StrEnum):
     F452 = "6"
     F452V = "7"
     MHServer2 = "11"
-    H4684 = "12"
+    H4684 = "13"
     HL4684 = "23"
     MH202 = "200"
 
-- 
2.43.0


From b43a37f3b35c084141ffd944aec2214871a844a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 29/35] fix: compare the tag enums with integers consistently

---
 pyown/tags/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/base.py b/pyown/tags/base.py
index fb51299..f939943 100644
--- a/pyown/tags/base.py
+++ b/pyown/tags/base.py
@@ -86,6 +86,11 @@ class Tag:
         else:
             return NotImplemented
 
+    def __ne__(self, other: object) -> bool:
+        # the enums inherit also from str, that would compare only with other strings
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
+
     def __hash__(self) -> int:
         return hash(self.string)
 
-- 
2.43.0


From c970d3934e2c5990871d99badc2909c268bc91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:52 +0000
Subject: [PATCH 30/35] fix: refuse an acknowledgement or a command in place of
 the HMAC server key

---
 pyown/client/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 8c45a9b..cf2cdfb 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -179,6 +179,8 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
+        if resp.type != MessageType.GENERIC or len(resp.tags) != 1:
+            raise InvalidAuthentication("Expected the server key")
         try:
             # the server key is sent as *#Ra##, with two digits for each hexadecimal digit
             server_key = digits_to_hex(str(resp.tags[0]).removeprefix("#"))
-- 
2.43.0


From 64063e364dab08989a83385d38914704a04705cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:34 +0000
Subject: [PATCH 31/35] fix: call every event callback even if another one
 cannot be called

---
 pyown/items/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyown/items/base.py b/pyown/items/base.py
index 9ee7e6f..c1babb0 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -1,4 +1,5 @@
 import asyncio
+import logging
 from abc import ABC
 from asyncio import Task
 from typing import Any, AsyncIterator, Callable, Coroutine, Self
@@ -18,6 +19,8 @@ from ..tags import Dimension, Value, What, Where, Who
 
 __all__ = ["BaseItem", "CoroutineCallback", "EventMessage"]
 
+log = logging.getLogger("pyown.items")
+
 CoroutineCallback = Callable[..., Coroutine[None, None, None]]
 """Type alias for a coroutine function that does not return anything."""
 
@@ -82,7 +85,14 @@ class BaseItem(ABC):
 
     @staticmethod
     def _create_tasks(funcs: list[CoroutineCallback], *args: Any) -> list[Task]:
-        return [asyncio.create_task(func(*args)) for func in funcs]
+        tasks: list[Task] = []
+        for func in funcs:
+            try:
+                tasks.append(asyncio.create_task(func(*args)))
+            except Exception as e:
+                # a callback that cannot be called must not prevent the others from being called
+                log.error(f"Error in callback {e}", exc_info=e, stack_info=True)
+        return tasks
 
     @classmethod
     async def call_callbacks(cls, item: Self, message: BaseMessage) -> list[Task]:
-- 
2.43.0


From 163dc56d5b8ebae98650e8be937e485b397af005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:41 +0000
Subject: [PATCH 32/35] fix: refuse digit pairs that do not encode a
 hexadecimal digit

---
 pyown/auth/hmac.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 41bc9ca..fa6add4 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -149,5 +149,7 @@ def digits_to_hex(
     out = ""
     for i in range(0, len(digits_string), 2):
         value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
+        if value > 15:
+            raise ValueError("Invalid hexadecimal digit")
         out += hex(value)[2:]
     return out
-- 
2.43.0


From 6abf92bf026d570f6d49625f33d8dd934105869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:41 +0000
Subject: [PATCH 33/35] fix: refuse authentication frames that are not in the
 documented form

---
 pyown/client/base.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index cf2cdfb..579e999 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -133,10 +133,10 @@ class BaseClient(ABC):
         # if it's a ∗98∗## open command, the server requires the hmac authentication algorithm
         if resp.type == MessageType.ACK:
             log.info("No authentication required")
-        elif len(resp.tags) == 1:
+        elif self._is_number(resp):
             log.info("Using open authentication")
             await self._authenticate_open(nonce=resp.tags[0])
-        elif resp.tags[0] == "98":
+        elif resp.tags[0] == "98" and len(resp.tags) == 2:
             log.info("Using hmac authentication")
             tag = resp.tags[1]
             await self._authenticate_hmac(
@@ -147,6 +147,15 @@ class BaseClient(ABC):
 
         log.info("Client ready")
 
+    @staticmethod
+    def _is_number(message: BaseMessage) -> bool:
+        """Checks if the message is in the form `*#number##`, like all the numbers sent for the authentication."""
+        if message.type != MessageType.GENERIC or len(message.tags) != 1:
+            return False
+
+        tag = str(message.tags[0])
+        return tag.startswith("#") and tag.removeprefix("#").isdigit()
+
     async def _authenticate_open(self, nonce: str) -> None:
         """Authenticates the client using the open authentication algorithm.
 
@@ -179,7 +188,7 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        if resp.type != MessageType.GENERIC or len(resp.tags) != 1:
+        if not self._is_number(resp):
             raise InvalidAuthentication("Expected the server key")
         try:
             # the server key is sent as *#Ra##, with two digits for each hexadecimal digit
@@ -211,7 +220,7 @@ class BaseClient(ABC):
         )
         resp = await self.read_message()
 
-        if resp.type == MessageType.NACK:
+        if not self._is_number(resp):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-- 
2.43.0


From ae5a75125d56f3c2097b80dd194148e0afac350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:38 +0000
Subject: [PATCH 34/35] fix: refuse the open authentication when the password
 is not numeric

start() failed with a ValueError, whose text discloses the password, when a gateway asked
for the open authentication and the password was not a number.
---
 pyown/client/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 579e999..c37b9c6 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -162,7 +162,14 @@ class BaseClient(ABC):
         Args:
             nonce (str): The nonce sent by the server
         """
-        enc = own_calc_pass(self._password, nonce)
+        try:
+            enc = own_calc_pass(self._password, nonce)
+        except ValueError:
+            enc = None
+
+        if enc is None:
+            # outside of the except block, because the original error contains the password
+            raise InvalidAuthentication("The open authentication requires a numeric password")
 
         await self.send_message(GenericMessage(["#" + enc]), force=True)
         resp = await self.read_message()
-- 
2.43.0


From 7a271e03fbb8a62afc60abde8e3f8a77fe2cbc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:36 +0000
Subject: [PATCH 35/35] fix: yield the status of the lights that are dimmed,
 timed or blinking

---
 pyown/items/lighting/light.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyown/items/lighting/light.py b/pyown/items/lighting/light.py
index ea6ea05..7dd2bd8 100644
--- a/pyown/items/lighting/light.py
+++ b/pyown/items/lighting/light.py
@@ -66,7 +66,5 @@ class Light(BaseLight):
             tuple[Where, bool]: The where and the status of the light.
         """
         async for message in self.send_status_request():
-            if message.what == WhatLight.ON:
-                yield message.where, True
-            elif message.what == WhatLight.OFF:
-                yield message.where, False
+            # the levels of the dimmers, the timed and the blinking lights are on too
+            yield message.where, message.what.tag != WhatLight.OFF
-- 
2.43.0

