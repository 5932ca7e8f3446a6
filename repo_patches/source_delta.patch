From 56b65e40ce9d94f4f4fbfb1460ff9244f57e87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 01/36] fix: remove exponential backtracking from the generic
 message pattern

The nested quantifiers took seconds on a 25 byte frame and grew
exponentially; the new pattern accepts the same language in linear time.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..041ac69 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From 61aba935fa99ffa9d1f4e3cbf889a9d9778e3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:21 +0000
Subject: [PATCH 02/36] fix: return a GenericMessage for frames with an unknown
 WHO

parse_message documents this, but the ValueError of the Who enum escaped.
---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 041ac69..289bef8 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # the WHO tag is not a known one
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From 01d3d518d4a80cfc0f6f2d2f0a5e423ccd324f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 03/36] fix: classify and serialise dimension frames with
 parameters correctly

*#18*52*511#10#7## (a request) was parsed as a response and serialised back
with an extra '*', *#18*51*#1200#1*5## (a writing) was parsed as a response
and lost its '#', and frames without values got an extra '*'.
---
 pyown/messages/dimension.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..5c8485a 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,9 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?##$"
+    )
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
@@ -61,7 +63,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
@@ -90,7 +92,8 @@ class DimensionWriting(BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        values = "".join(f"*{value}" for value in self.values)
+        return f"*#{self.who}*{self.where}*#{self.dimension}{values}##"
 
     @classmethod
     def parse(cls, tags: list[str]) -> Self:
@@ -122,4 +125,5 @@ class DimensionResponse(DimensionWriting, BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        values = "".join(f"*{value}" for value in self.values)
+        return f"*#{self.who}*{self.where}*{self.dimension}{values}##"
-- 
2.43.0


From c3bdbbd81985a5edd5616ea3efbafcb03354cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:24 +0000
Subject: [PATCH 04/36] fix: make GenericMessage hashable

Its tags are a list, so hash() raised TypeError.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 289bef8..7cd53d2 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 266d1d98c0da2fde473f10d987f36a13200529ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:25 +0000
Subject: [PATCH 05/36] fix: give every WHO a name

Who.name raised KeyError for 6, 8, 14, 24 and 1018.
---
 pyown/tags/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/who.py b/pyown/tags/who.py
index 0c26fb0..7d7eefa 100644
--- a/pyown/tags/who.py
+++ b/pyown/tags/who.py
@@ -81,15 +81,20 @@ who_map: Final[dict[Who, str]] = {
     Who.LOAD_CONTROL: "Load control",
     Who.THERMOREGULATION: "Thermoregulation",
     Who.BURGLAR_ALARM: "Burglar alarm",
+    Who.DOOR_ENTRY_SYSTEM: "Door entry system",
     Who.VIDEO_DOOR_ENTRY: "Video door entry",
+    Who.AUXILIARY: "Auxiliary",
     Who.GATEWAY: "Gateway management",
+    Who.ACTUATORS_LOCKS: "Actuators and locks",
     Who.CEN_1: "CEN",
     Who.SOUND_DIFFUSION_1: "Sound diffusion 1",
     Who.MH200N_SCENE: "MH200N Scene",
     Who.ENERGY_MANAGEMENT: "Energy management",
     Who.SOUND_DIFFUSION_2: "Sound diffusion 2",
+    Who.LIGHTING_MANAGEMENT: "Lighting management",
     Who.CEN_2: "CEN plus / scenarios plus / dry contacts",
     Who.AUTOMATION_DIAGNOSTICS: "Automation diagnostics",
     Who.THERMOREGULATION_DIAGNOSTICS: "Thermoregulation diagnostics",
     Who.DEVICE_DIAGNOSTICS: "Device diagnostics",
+    Who.ENERGY_DIAGNOSTICS: "Energy diagnostics",
 }
-- 
2.43.0


From f19ec71592365e5f641dc73b525dc3b52fc062b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:27 +0000
Subject: [PATCH 06/36] fix: reject tags that contain the message terminator

The protocol reserves the couple ## for the end of a message; a tag holding
it produced frames that a gateway reads as two messages.
---
 pyown/tags/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyown/tags/base.py b/pyown/tags/base.py
index 4bfcfcf..3a02726 100644
--- a/pyown/tags/base.py
+++ b/pyown/tags/base.py
@@ -17,7 +17,8 @@ VALID_TAG_CHARS: Final[str] = "0123456789#"
 def is_valid_tag(tag: str) -> bool:
     """Checks if the tag is valid.
 
-    A tag is valid if it contains only the characters defined in the VALID_TAG_CHARS constant.
+    A tag is valid if it contains only the characters defined in the VALID_TAG_CHARS constant and it does not
+    contain the couple "##", which is the end of a message.
 
     Args:
         tag (str): The tag to check
@@ -25,7 +26,7 @@ def is_valid_tag(tag: str) -> bool:
     Returns:
         bool: True if the tag is valid, False otherwise
     """
-    return all(c in VALID_TAG_CHARS for c in tag)
+    return "##" not in tag and all(c in VALID_TAG_CHARS for c in tag)
 
 
 class Tag:
-- 
2.43.0


From 950849c4851a03f790c485d892bd2758cbb8318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:54 +0000
Subject: [PATCH 07/36] fix: reassemble messages split among TCP segments

TCP does not preserve message boundaries: a frame cut in two segments was
parsed as two (wrong) messages or closed the connection, and an invalid
frame discarded the valid ones received before it in the same segment.
---
 pyown/protocol/protocol.py | 48 +++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..e5d6cf0 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -1,9 +1,10 @@
 import asyncio
 import logging
+import re
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidMessage, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -40,6 +41,9 @@ class OWNProtocol(Protocol):
         # The queue was chosen because it supports both synchronous and asynchronous functions
         self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
 
+        # Contains the beginning of a message that is not completely received yet
+        self._buffer: str = ""
+
         self._lock = Lock()
 
     def connection_made(self, transport: BaseTransport):
@@ -66,34 +70,50 @@ class OWNProtocol(Protocol):
 
         The data argument is a bytes object containing the incoming data.
         It tries to parse the data, and if a valid message is found, it is added to the message queue.
+        A message can be split among multiple packets, so the data after the last complete message is kept
+        until the rest of it is received.
 
         Args:
             data (bytes): The incoming data
         """
+        decode_error: UnicodeDecodeError | None = None
+
         # In OpenWebNet, the message is always written with ascii characters
         try:
-            text = data.decode("ascii").strip()
+            text = data.decode("ascii")
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
-            raise e
+            decode_error = e
+            text = data[: e.start].decode("ascii")
 
         # Sometimes multiple messages can be sent in the same packet
-        try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
-        except ParseError as e:
-            log.warning(f"Received invalid message: {e}")
-            raise e
+        *frames, tail = (self._buffer + text).split("##")
+        self._buffer = ""
 
-        # If there are no messages, return
-        if not messages:
-            return
+        for frame in frames:
+            frame = frame.strip()
+            if not frame:
+                continue
 
-        log.debug(f"Received messages: {messages}")
+            try:
+                msg = parse_message(frame + "##")
+            except ParseError as e:
+                log.warning(f"Received invalid message: {e}")
+                raise e
 
-        # Call the on_message_received future
-        for msg in messages:
+            log.debug(f"Received message: {msg}")
             self._messages_queue.put_nowait(msg)
 
+        if decode_error is not None:
+            raise decode_error
+
+        # What is left can only be the beginning of another message
+        tail = tail.lstrip()
+        if tail and re.fullmatch(r"\*[0-9#*]*", tail) is None:
+            log.warning(f"Received invalid message: {tail}")
+            raise InvalidMessage(tail)
+        self._buffer = tail
+
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
         self._lock.acquire()
-- 
2.43.0


From 7b39695181aa6e4246cacf169379bc28a1f96420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:56 +0000
Subject: [PATCH 08/36] fix: end the event loop and wake readers when the
 connection is lost

loop() waited forever on the message queue after the gateway dropped the
connection, and read_message() with no timeout never returned; after close()
loop() failed with AttributeError.
---
 pyown/client/base.py       |  1 +
 pyown/client/client.py     |  5 ++++-
 pyown/protocol/protocol.py | 19 ++++++++++++++++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..e9d7fcb 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -230,6 +230,7 @@ class BaseClient(ABC):
 
         Raises:
             TimeoutError: if the server does not respond in the given time.
+            ConnectionError: if the connection with the server is lost.
             InvalidSession: if the client is not started.
         """
         if self._protocol is None:
diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..1c2bd5f 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -112,10 +112,13 @@ class Client(BaseClient):
             client = self
 
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        while True:
             try:
                 # by putting timeout as None, it will wait indefinitely for a message
                 message = await self.read_message(timeout=None)
+            except (ConnectionError, InvalidSession):
+                log.info("Connection dropped or closed")
+                break
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index e5d6cf0..746be00 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -39,7 +39,7 @@ class OWNProtocol(Protocol):
         self._on_connection_end: Future[Exception | None] = on_connection_end
 
         # The queue was chosen because it supports both synchronous and asynchronous functions
-        self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
+        self._messages_queue: Queue[BaseMessage | None] = asyncio.Queue()
 
         # Contains the beginning of a message that is not completely received yet
         self._buffer: str = ""
@@ -60,6 +60,10 @@ class OWNProtocol(Protocol):
             log.info(f"Connection lost with exception: {exc}")
         else:
             log.info("Connection lost")
+
+        # Wake up who is waiting for a message after the ones already received
+        self._messages_queue.put_nowait(None)
+
         if exc is None:
             self._on_connection_end.set_result(None)
         else:
@@ -146,6 +150,15 @@ class OWNProtocol(Protocol):
 
         Returns:
             BaseMessage: The message from the server, it will be a subclass of BaseMessage
+
+        Raises:
+            ConnectionError: if the connection is lost and all the messages received before are already read.
         """
-        messages = await self._messages_queue.get()
-        return messages
+        message = await self._messages_queue.get()
+
+        if message is None:
+            # Leave it in the queue for the next readers
+            self._messages_queue.put_nowait(None)
+            raise ConnectionResetError("Connection lost")
+
+        return message
-- 
2.43.0


From e440e7df41baf53b02416ae323d386aa36097971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:58 +0000
Subject: [PATCH 09/36] fix: release waiting senders when the connection is
 lost

send_message() polled forever when the connection was lost while the
transport had paused writing.
---
 pyown/protocol/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 746be00..baa3977 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -64,6 +64,10 @@ class OWNProtocol(Protocol):
         # Wake up who is waiting for a message after the ones already received
         self._messages_queue.put_nowait(None)
 
+        # The transport doesn't call resume_writing after the connection is lost
+        if self._lock.locked():
+            self._lock.release()
+
         if exc is None:
             self._on_connection_end.set_result(None)
         else:
-- 
2.43.0


From e5f4a2519789592dc89654c6c85c3b949d195046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:59 +0000
Subject: [PATCH 10/36] fix: allow a client to be started again after close

The connection futures were already done, so connection_made and
connection_lost raised InvalidStateError on the second connection.
---
 pyown/client/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index e9d7fcb..caa2932 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -85,6 +85,10 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        # A future can be set only once, so each connection needs its own
+        self._on_connection_start = self._loop.create_future()
+        self._on_connection_end = self._loop.create_future()
+
         try:
             self._transport, self._protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
-- 
2.43.0


From 55ec7edaa8175d845be2b6399d0d03232bd74ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:01 +0000
Subject: [PATCH 11/36] fix: close the connection when the handshake fails

A failed, timed out or cancelled start() left the socket open and the
client looking started.
---
 pyown/client/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index caa2932..8282105 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -101,6 +101,15 @@ class BaseClient(ABC):
         except OSError:
             raise TimeoutError("Could not connect to the server")
 
+        try:
+            await self._handshake()
+        except BaseException:
+            # Do not leave open a connection that can't be used
+            await self.close()
+            raise
+
+    async def _handshake(self) -> None:
+        """Does the initial handshake with the gateway."""
         # Wait for the connection to start
         await self._on_connection_start
 
-- 
2.43.0


From 97ad9e4a2143965be3d0835603bd805d2886c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 12/36] fix: follow the documented exchange in the hmac
 authentication

According to docs/original/hmac.md the keys are exchanged as *#digits##,
the hashes are computed on the hex text of the keys, the confirmation of the
server is the hash of Ra, Rb and Kab, and the digests are plain SHA-1/SHA-256.
No gateway or correct confirmation could be accepted before, and malformed
replies raised IndexError or ValueError.
---
 pyown/auth/hmac.py   | 29 +++++++++++++----------------
 pyown/client/base.py | 31 ++++++++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 1dc0b96..9385b90 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -1,5 +1,5 @@
 from hashlib import sha1, sha256
-from hmac import HMAC, compare_digest
+from hmac import compare_digest
 from secrets import token_bytes
 
 from .enum import AuthAlgorithm
@@ -45,13 +45,8 @@ def client_hmac(
     kab = hash_function(password.encode()).hexdigest()
     hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
 
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
-
-    return hmac.digest()
+    # despite the name, the gateway uses a plain hash of the concatenation
+    return hash_function(hmac_message.encode()).digest()
 
 
 def server_hmac(
@@ -79,15 +74,9 @@ def server_hmac(
         raise ValueError("Invalid hash algorithm")
 
     kab = hash_function(password.encode()).hexdigest()
-    hmac_message = f"{client_key}{server_key}{kab}"
-
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
+    hmac_message = f"{server_key}{client_key}{kab}"
 
-    return hmac.digest()
+    return hash_function(hmac_message.encode()).digest()
 
 
 def compare_hmac(
@@ -155,9 +144,17 @@ def digits_to_hex(
 
     Returns:
         str: the hex string
+
+    Raises:
+        ValueError: if the string is not composed of pairs of digits in the range [00-15]
     """
+    if len(digits_string) % 2 != 0:
+        raise ValueError("Invalid digit string")
+
     out = ""
     for i in range(0, len(digits_string), 2):
         value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
+        if value > 15:
+            raise ValueError("Invalid digit string")
         out += hex(value)[2:]
     return out
diff --git a/pyown/client/base.py b/pyown/client/base.py
index 8282105..9a2ebd2 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -183,7 +184,7 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        server_key = self._parse_hmac_digits(resp)
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -204,7 +205,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -213,11 +214,35 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(server_auth, bytes.fromhex(self._parse_hmac_digits(resp))):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
 
+    @staticmethod
+    def _parse_hmac_digits(resp: BaseMessage) -> str:
+        """Gets the hex string contained in a `*#digits##` message of the hmac authentication.
+
+        Args:
+            resp (BaseMessage): The message sent by the server
+
+        Raises:
+            InvalidAuthentication: if the message doesn't contain a hex string encoded in digits
+        """
+        digits = str(resp.tags[0])
+        if len(resp.tags) != 1 or not digits.startswith("#"):
+            raise InvalidAuthentication("Invalid authentication response")
+
+        try:
+            hex_string = digits_to_hex(digits.removeprefix("#"))
+        except ValueError:
+            raise InvalidAuthentication("Invalid authentication response")
+
+        if len(hex_string) % 2 != 0:
+            raise InvalidAuthentication("Invalid authentication response")
+
+        return hex_string
+
     async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
         """Sends a message to the server.
 
-- 
2.43.0


From efda8054baaf3b3bd6f44e9c10af34591d787d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 13/36] fix: validate the authentication request of the gateway

A *98## reply raised IndexError, *## was answered as if it carried a nonce,
and the '#' in front of the OPEN nonce was processed as one of its digits, so
an all-zero nonce made the client send the password in clear.
---
 pyown/client/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 9a2ebd2..49527bd 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -138,10 +138,10 @@ class BaseClient(ABC):
         # if it's a ∗98∗## open command, the server requires the hmac authentication algorithm
         if resp.type == MessageType.ACK:
             log.info("No authentication required")
-        elif len(resp.tags) == 1:
+        elif len(resp.tags) == 1 and resp.tags[0].removeprefix("#").isdecimal():
             log.info("Using open authentication")
-            await self._authenticate_open(nonce=resp.tags[0])
-        elif resp.tags[0] == "98":
+            await self._authenticate_open(nonce=resp.tags[0].removeprefix("#"))
+        elif len(resp.tags) == 2 and resp.tags[0] == "98":
             log.info("Using hmac authentication")
             tag = resp.tags[1]
             await self._authenticate_hmac(
-- 
2.43.0


From ce18fa53845874afccbed7e05d6c127757b5c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 14/36] fix: match the responses to the request that caused
 them

Concurrent item calls on the same client read each other's responses, an
early exit from a query or a reply arrived after a timeout left messages in
the queue that were taken as the answer to the next command.
---
 pyown/client/base.py         | 40 +++++++++++++++++++++++++++++++
 pyown/items/base.py          | 46 ++++++++++++++++--------------------
 pyown/items/camera/camera.py |  4 +---
 pyown/protocol/protocol.py   | 12 ++++++++++
 4 files changed, 73 insertions(+), 29 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 49527bd..e19c6a8 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -65,6 +65,9 @@ class BaseClient(ABC):
         self._loop = loop or asyncio.get_event_loop()
         self._loop.set_exception_handler(self._exception_handler)
 
+        # The responses don't refer to their request, so only one request at a time can wait for them
+        self._request_lock = asyncio.Lock()
+
         self._on_connection_start: Future[Transport] = self._loop.create_future()
         self._on_connection_end: Future[Exception | None] = self._loop.create_future()
 
@@ -279,6 +282,43 @@ class BaseClient(ABC):
 
         return message
 
+    async def send_request(self, message: BaseMessage) -> list[BaseMessage]:
+        """Sends a message to the server and waits for all its responses.
+
+        It can be used by multiple tasks at the same time, each one gets only the responses to its message.
+
+        Args:
+            message (BaseMessage): the message to send to the server
+
+        Returns:
+            list[BaseMessage]: the messages from the server, the last one is always an ACK or a NACK.
+
+        Raises:
+            TimeoutError: if the server does not respond in time.
+            ConnectionError: if the connection with the server is lost.
+            InvalidSession: if the client is set as an event session or if the client is not started.
+        """
+        await self._request_lock.acquire()
+
+        # If the caller is canceled, the responses must still be read before sending another request
+        task = self._loop.create_task(self._exchange(message))
+        task.add_done_callback(lambda _: self._request_lock.release())
+        return await asyncio.shield(task)
+
+    async def _exchange(self, message: BaseMessage) -> list[BaseMessage]:
+        # What is already received can't be a response to a message not sent yet
+        if self._protocol is not None and self.is_cmd_session():
+            self._protocol.discard_messages()
+
+        await self.send_message(message)
+
+        responses: list[BaseMessage] = []
+        while True:
+            resp = await self.read_message()
+            responses.append(resp)
+            if resp.type == MessageType.ACK or resp.type == MessageType.NACK:
+                return responses
+
     async def close(self) -> None:
         """Close the client."""
         if self._transport is not None:
diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2f820b2..281c924 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -122,6 +122,18 @@ class BaseItem(ABC):
         """
         return await self._client.read_message(timeout=timeout)
 
+    async def _send_command(self, message: BaseMessage) -> None:
+        """Sends a message to the server and checks that it's acknowledged.
+
+        Args:
+            message: The message to send.
+
+        Raises:
+            ResponseError: If the server does not acknowledge the message.
+        """
+        responses = await self._client.send_request(message)
+        self._check_ack(responses[0])
+
     @staticmethod
     def _check_ack(resp: BaseMessage) -> None:
         """Checks if the response is an ACK message.
@@ -207,10 +219,7 @@ class BaseItem(ABC):
             ResponseError: If the server does not acknowledge the message.
         """
         msg = self.create_normal_message(what)
-        await self._send_message(msg)
-
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(msg)
 
     async def send_status_request(self) -> AsyncIterator[NormalMessage]:
         """Sends a status request and receive multiple responses from the server.
@@ -222,16 +231,10 @@ class BaseItem(ABC):
             The responses from the server.
         """
         msg = self.create_status_message()
-        await self._send_message(msg)
-
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
-
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
+        *responses, end = await self._client.send_request(msg)
+        self._check_nack(end)
 
+        for resp in responses:
             if not isinstance(resp, NormalMessage):
                 raise ResponseError(f"Received {resp} instead of a normal message")
 
@@ -252,16 +255,10 @@ class BaseItem(ABC):
             dimension = Dimension(dimension)
 
         msg = self.create_dimension_request_message(dimension)
-        await self._send_message(msg)
-
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
-
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
+        *responses, end = await self._client.send_request(msg)
+        self._check_nack(end)
 
+        for resp in responses:
             if not isinstance(resp, DimensionResponse):
                 raise ResponseError(f"Received {resp} instead of a dimension response message")
 
@@ -281,10 +278,7 @@ class BaseItem(ABC):
             dimension = Dimension(dimension)
 
         msg = self.create_dimension_writing_message(dimension, *args)
-        await self._send_message(msg)
-
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(msg)
 
     # TODO: Refactor this method
     async def _single_dim_req(self, what: What | Dimension) -> DimensionResponse:
diff --git a/pyown/items/camera/camera.py b/pyown/items/camera/camera.py
index feb495d..8446c10 100644
--- a/pyown/items/camera/camera.py
+++ b/pyown/items/camera/camera.py
@@ -154,9 +154,7 @@ class Camera(BaseItem):
             what: The WHAT command to send.
         """
         msg = GenericMessage([str(self._who), str(what)])
-        await self._send_message(msg)
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(msg)
 
     async def free_resources(self):
         """Frees audio and video resources.
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index baa3977..7625cf2 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -166,3 +166,15 @@ class OWNProtocol(Protocol):
             raise ConnectionResetError("Connection lost")
 
         return message
+
+    def discard_messages(self) -> None:
+        """Discards the messages received from the server that aren't read yet."""
+        while not self._messages_queue.empty():
+            message = self._messages_queue.get_nowait()
+
+            if message is None:
+                # The connection is lost, leave it in the queue for the next readers
+                self._messages_queue.put_nowait(None)
+                break
+
+            log.warning(f"Discarded message: {message}")
-- 
2.43.0


From 557e44684d8b4fe71911aebb83fb37561c9ee2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 15/36] fix: do not stop the event loop on an energy event with
 an unsupported WHERE

The InvalidTag raised by EnergyManagement (or the IndexError for 7N without
parameters) was not handled and ended loop().
---
 pyown/client/client.py       | 2 +-
 pyown/items/energy/energy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 1c2bd5f..18f45e1 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -139,7 +139,7 @@ class Client(BaseClient):
             try:
                 # get the item if already declared, otherwise instantiate it
                 item = self.get_item(who, where, client=client)
-            except KeyError:
+            except (KeyError, InvalidTag):
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
 
diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..77c1eea 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters[:1] == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From 2a9a5663cd4ae5990b7270bea636036f109c191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 16/36] fix: dispatch light dimension events using the
 documented dimensions

Luminosity is the dimension 1, temporization 2 and white temperature 14
(docs/original/who1.md); 1, 8 and 13 were used.
---
 pyown/items/lighting/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..6387b68 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -233,18 +233,18 @@ class BaseLight(BaseItem, ABC):
         if isinstance(message, DimensionResponse):
             if message.dimension.tag == "1":
                 tasks += cls._create_tasks(
-                    cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
+                    cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
                     int(message.values[0].tag),
                     int(message.values[1].tag),
-                    int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "2":
                 tasks += cls._create_tasks(
-                    cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
+                    cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
                     int(message.values[0].tag),
                     int(message.values[1].tag),
+                    int(message.values[2].tag),
                 )
             elif message.dimension.tag == "12":
                 tasks += cls._create_tasks(
@@ -254,7 +254,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
-- 
2.43.0


From 7f6ac57bd7baf0336f534eca4e85d676ccb899cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 17/36] fix: use the documented dimensions for working time and
 white temperature

8 is the working time (3 is 'required only on light') and 14 is the white
temperature, the same already used to read it.
---
 pyown/items/lighting/base.py   | 2 +-
 pyown/items/lighting/dimmer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 6387b68..5c1e9b1 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -200,7 +200,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..6b9a0c1 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -163,7 +163,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From 5c8498ef1ec17f828026c53691c1381f17f2c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 18/36] fix: allow parameters on the light commands

with_parameter tried to build a member of the enum, so turn_on, turn_off,
up_percent and down_percent of a dimmer raised ValueError with any argument.
---
 pyown/items/lighting/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5c1e9b1..7ad3725 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -113,6 +113,10 @@ class WhatLight(What, StrEnum):
 
     COMMAND_TRANSLATION = "1000"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class BaseLight(BaseItem, ABC):
     """Base class for all light items."""
-- 
2.43.0


From d8110ade21fe947e00acfc16722a748c94cbcc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 19/36] fix: do not send the speed of up_percent and
 down_percent as the value

With only the speed given it became the first parameter, which is the number
of levels, and it was not checked to be in the documented range.
---
 pyown/items/lighting/dimmer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 6b9a0c1..1be4f88 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,9 +87,15 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.UP_1_PERCENT
 
+        # the speed is always the second parameter
+        if value is None and speed is not None:
+            value = 1
+
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
@@ -106,9 +112,15 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.DOWN_1_PERCENT
 
+        # the speed is always the second parameter
+        if value is None and speed is not None:
+            value = 1
+
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
-- 
2.43.0


From b5867bce537762d0d853f5bc4c36b8bcecc9a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:46 +0000
Subject: [PATCH 20/36] fix: report a light as on for every status except off

A dimmer at 50% (what 5), a timed or a blinking light was reported as off.
---
 pyown/items/lighting/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 7ad3725..521a1cd 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -265,10 +265,15 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[0].tag),
                 )
         elif isinstance(message, NormalMessage):
+            what = WhatLight(message.what.tag)
+            if what == WhatLight.COMMAND_TRANSLATION:
+                # it's a command for the actuator and not its status
+                raise InvalidMessage(str(message))
+
             tasks += cls._create_tasks(
                 cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),
                 item,
-                message.what == WhatLight.ON,
+                what != WhatLight.OFF,
             )
         else:
             raise InvalidMessage(str(message))
-- 
2.43.0


From 50d85494b22a0ea53bf49367b191f4edee590af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 21/36] fix: dispatch the energy events whose dimension has
 parameters

511#M#D, 512#M, 513#M, 514#M, 52#Y#M and 72#N were not found in the enum; the
callbacks of 511 and 72 also missed the documented day and totalizer number.
---
 pyown/items/energy/energy.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 77c1eea..b370018 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,7 +553,8 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        dim = DimensionEnergy(message.dimension.tag)
+        parameters = message.dimension.parameters
 
         tasks = []
         callbacks = cls._event_callbacks.get(dim, [])
@@ -561,22 +562,23 @@ class EnergyManagement(BaseItem):
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
+            day = int(parameters[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
@@ -607,8 +609,8 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.ENERGY_UNIT_PER_MONTH:
-            month = int(dim.parameters[1])
-            year = int(dim.parameters[0])
+            month = int(parameters[1])
+            year = int(parameters[0])
             energy = float(message.values[0].string)
             args = (item, month, year, energy)
         elif dim.tag == DimensionEnergy.PARTIAL_TOTALIZER_CURRENT_MONTH:
@@ -618,8 +620,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(parameters[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From 1161003da0d554b1948305e7592e9defb90da6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 22/36] fix: send month and day in the documented order when
 asking the daily totalizers

The command is *18*57#<M>#<D>*where##.
---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index b370018..58383c7 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -81,7 +81,7 @@ class EnergyManagement(BaseItem):
             month = datetime.now().month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
-- 
2.43.0


From 7b2c21694b2c95080c0e9a2b90dd2b88d7e775ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:51 +0000
Subject: [PATCH 23/36] fix: read the actuator info from the six values of the
 response

The response is *#18*where*71*disabled*forcing*...*advanced##, each flag is a
separate value.
---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 58383c7..1efe83f 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -302,12 +302,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=not bool(int(message.values[5].string) - 1),
         )
 
     async def get_totalizers(
-- 
2.43.0


From 1e3c5a9e4c487e8cfdce0eec853c6d2589fdc26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:53 +0000
Subject: [PATCH 24/36] fix: decode the Stop&Go status mask as documented

The mask is the binary number b13...b1; the request read it as a decimal
number and the event took b13 as b1.
---
 pyown/items/energy/energy.py  | 28 +++++++++++++++-------------
 pyown/items/energy/stop_go.py |  4 +++-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 1efe83f..6e7fc5e 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -583,20 +583,22 @@ class EnergyManagement(BaseItem):
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
+            # the bits are written from the most significant one (b13) to the least significant one (b1)
+            mask = int(message.values[0].string, 2)
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(mask & 0x01),
+                failure=bool(mask & 0x02),
+                block=bool(mask & 0x04),
+                open_cc=bool(mask & 0x08),
+                open_ground_fault=bool(mask & 0x10),
+                open_vmax=bool(mask & 0x20),
+                self_test_off=bool(mask & 0x40),
+                auto_reset_off=bool(mask & 0x80),
+                check_off=bool(mask & 0x100),
+                waiting_closing=bool(mask & 0x200),
+                first_24h_open=bool(mask & 0x400),
+                power_fail_down=bool(mask & 0x800),
+                power_fail_up=bool(mask & 0x1000),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..f846cc6 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -69,7 +69,9 @@ class StopGo(EnergyManagement):
                 raise InvalidMessage(msg.message)
 
             dim = msg.dimension
-            val = int(msg.values[0].string)
+            # the general status is a bitmask written in binary
+            base = 2 if dim == DimensionEnergy.STATUS_STOP_GO_GENERAL else 10
+            val = int(msg.values[0].string, base)
 
             if val is None:
                 raise InvalidMessage(msg.message)
-- 
2.43.0


From 234abfde36ad858e289f0599cc91ded2169784fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 25/36] fix: encode the time zone with the sign and two digits

The documented format is 3 digits long, and timedelta.seconds of a negative
offset is the complement to one day (GMT-2 was sent as 1022).
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..2cfa3f7 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = abs(tz) // datetime.timedelta(hours=1)
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From 0c1383e138a1e0db6a7b3762d746eeee11adba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 26/36] fix: send the day of the week when setting the date and
 time

The frame is *#13**#22*H*M*S*T*W*D*M*Y##, without W the gateway reads every
following field wrong.
---
 pyown/items/gateway/gateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 2cfa3f7..df52f4c 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -396,11 +396,13 @@ class Gateway(BaseItem):
         m = Value(f"{bus_time.minute:02d}")
         s = Value(f"{bus_time.second:02d}")
 
+        # day of the week, 00 is Sunday
+        w = Value(f"{bus_time.isoweekday() % 7:02d}")
         d = Value(f"{bus_time.day:02d}")
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From 712d408603b7f54f637e565408852ef960674b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:58 +0000
Subject: [PATCH 27/36] fix: return the MAC address in hexadecimal

The gateway sends decimal octets, *0*16*255*200*16*1 is 00:10:FF:C8:10:01.
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index df52f4c..9f8f3a4 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -276,8 +276,8 @@ class Gateway(BaseItem):
 
         oct1, oct2, oct3, oct4, oct5, oct6 = resp.values
 
-        mac = f"{oct1.string}:{oct2.string}:{oct3.string}:{oct4.string}:{oct5.string}:{oct6.string}"
-        return mac
+        # the gateway sends the decimal value of each octet
+        return ":".join(f"{int(o.string):02X}" for o in (oct1, oct2, oct3, oct4, oct5, oct6))
 
     async def get_netinfo(self) -> ipaddress.IPv4Network:
         """Combines the net mask and the IP address to get the network info.
-- 
2.43.0


From 307685a2c7dc93e54e80bb4241a2f7faa056f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:00 +0000
Subject: [PATCH 28/36] fix: pass strings to the gateway callbacks as one
 argument

A str is a Sequence, so the net mask, MAC address, model and versions were
split into one argument per character.
---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 9f8f3a4..49d9e5b 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -508,10 +508,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From 98ed1eacd3887f31f110c93d530c1bb244b5da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 29/36] fix: register the camera as an item type

Camera.on_status_change callbacks were never called, its events were reported
as not supported.
---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..e2ac540 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -12,6 +13,7 @@ __all__ = ["ITEM_TYPES"]
 ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.LIGHTING: Light,
     Who.AUTOMATION: Automation,
+    Who.VIDEO_DOOR_ENTRY: Camera,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
 }
-- 
2.43.0


From a0bbfffdddb4be9a82472d9192bb410b5b98e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:03 +0000
Subject: [PATCH 30/36] fix: classify the addresses on a local bus

0#4#01 (general of local bus) and #5#4#01 (group of local bus) raised
ValueError and 1#4#01 (area of local bus) was reported as a light point.
---
 pyown/tags/where.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyown/tags/where.py b/pyown/tags/where.py
index 376eb34..44876be 100644
--- a/pyown/tags/where.py
+++ b/pyown/tags/where.py
@@ -39,19 +39,20 @@ class Where(TagWithParameters):
             WhereType: The type of the WHERE tag.
         """
         # TODO: Refactor this method and write tests for it.
-        if self.string == "0":
-            return WhereType.GENERAL
-        elif self.string in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
+        if self.tag == "0":
+            return WhereType.LOCAL_BUS if self.parameters else WhereType.GENERAL
+        elif self.tag in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
             return WhereType.AMBIENT
-        elif self.string in ["00", "100"]:
+        elif self.tag in ["00", "100"]:
             return WhereType.AMBIENT
-        elif self.string.startswith(("00", "10")):
+        elif self.tag.startswith(("00", "10")):
             return WhereType.LIGHT_POINT
-        elif self.string.startswith(("1", "2", "3", "4", "5", "6", "7", "8", "9")):
+        elif self.tag.startswith(("1", "2", "3", "4", "5", "6", "7", "8", "9")):
             return WhereType.LIGHT_POINT
-        elif self.string.startswith(("01", "02", "03", "04", "05", "06", "07", "08", "09")):
+        elif self.tag.startswith(("01", "02", "03", "04", "05", "06", "07", "08", "09")):
             return WhereType.LIGHT_POINT
-        elif self.tag == "" and len(self.parameters) == 1:
+        elif self.tag == "" and len(self.parameters) in (1, 3):
+            # a group, followed by #4#interface if it's on a local bus
             return WhereType.GROUP
         elif self.tag == "" and len(self.parameters) == 2:
             return WhereType.LOCAL_BUS
-- 
2.43.0


From fd337140b05efc6bb5ddd4dbc0aae368f78c9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:21 +0000
Subject: [PATCH 31/36] fix: use the documented device type of the H4684
 gateway

---
 pyown/items/gateway/gateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 49d9e5b..73f6b47 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -44,7 +44,7 @@ class GatewayModel(StrEnum):
     F452 = "6"
     F452V = "7"
     MHServer2 = "11"
-    H4684 = "12"
+    H4684 = "13"
     HL4684 = "23"
     MH202 = "200"
 
-- 
2.43.0


From 4fc27d8c61de30563477b04d16ca26f60fbb05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:04 +0000
Subject: [PATCH 32/36] fix: do not send on a new connection the requests
 queued on the old one

A request that waited for another one when the client was closed and
started again was sent in the middle of the new handshake and discarded
the replies of the gateway, so start() failed.
---
 pyown/client/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index e19c6a8..0a7dc89 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -298,14 +298,19 @@ class BaseClient(ABC):
             ConnectionError: if the connection with the server is lost.
             InvalidSession: if the client is set as an event session or if the client is not started.
         """
+        protocol = self._protocol
         await self._request_lock.acquire()
 
         # If the caller is canceled, the responses must still be read before sending another request
-        task = self._loop.create_task(self._exchange(message))
+        task = self._loop.create_task(self._exchange(message, protocol))
         task.add_done_callback(lambda _: self._request_lock.release())
         return await asyncio.shield(task)
 
-    async def _exchange(self, message: BaseMessage) -> list[BaseMessage]:
+    async def _exchange(self, message: BaseMessage, protocol: Optional[OWNProtocol]) -> list[BaseMessage]:
+        # The request belongs to the connection that was open when it was made, not to the one opened while it waited
+        if self._protocol is not protocol:
+            raise ConnectionResetError("Connection closed")
+
         # What is already received can't be a response to a message not sent yet
         if self._protocol is not None and self.is_cmd_session():
             self._protocol.discard_messages()
-- 
2.43.0


From 383c5b69ecc90a48f36c6900a197a08308e63694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:11 +0000
Subject: [PATCH 33/36] fix: refuse a password that is not a number without
 disclosing it

---
 pyown/client/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 0a7dc89..c9200ba 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -161,7 +161,11 @@ class BaseClient(ABC):
         Args:
             nonce (str): The nonce sent by the server
         """
-        enc = own_calc_pass(self._password, nonce)
+        try:
+            enc = own_calc_pass(self._password, nonce)
+        except ValueError:
+            # The original error contains the password
+            raise InvalidAuthentication("The password must be a number") from None
 
         await self.send_message(GenericMessage(["#" + enc]), force=True)
         resp = await self.read_message()
-- 
2.43.0


From a03bde01cb64f910d153f3a4f676bd17796af28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:37 +0000
Subject: [PATCH 34/36] fix: report the WHO an item was created with

---
 pyown/items/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyown/items/base.py b/pyown/items/base.py
index 281c924..9c47de4 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -26,6 +26,13 @@ EventMessage = DimensionResponse | DimensionWriting | None
 """Type alias for the event messages that can be received by the item."""
 
 
+class _WhoProperty:
+    """Reads the WHO of an item or, when accessed on the class, the one of its items."""
+
+    def __get__(self, item: "BaseItem | None", cls: "type[BaseItem]") -> Who:
+        return (cls if item is None else item)._who
+
+
 # TODO: Refactor this class
 class BaseItem(ABC):
     """The base class for all items.
@@ -65,11 +72,8 @@ class BaseItem(ABC):
         """Returns the where value of the item."""
         return self._where
 
-    @classmethod
-    @property
-    def who(cls) -> Who:
-        """Returns the who value of the item."""
-        return cls._who
+    who = _WhoProperty()
+    """Returns the who value of the item."""
 
     @property
     def client(self) -> BaseClient:
-- 
2.43.0


From fb287a4acebb93aae0e5101f2f39b71a6d5266de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:30 +0000
Subject: [PATCH 35/36] fix: refuse a brightness or a speed out of range in
 set_brightness_with_speed

---
 pyown/items/lighting/dimmer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1be4f88..b51c48b 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -142,9 +142,14 @@ class Dimmer(BaseLight):
         """Sets the brightness of the light with a specific speed.
 
         Args:
-            brightness: the brightness to set
-            speed: the speed to set the brightness
+            brightness: the brightness to set [100-200]
+            speed: the speed to set the brightness [0-255]
         """
+        if int(brightness) < 100 or int(brightness) > 200:
+            raise ValueError("Invalid brightness value")
+        if int(speed) < 0 or int(speed) > 255:
+            raise ValueError("Invalid speed value")
+
         await self.send_dimension_writing(Dimension("1"), Value(brightness), Value(speed))
 
     async def set_hsv(self, hue: int, saturation: int, value: int):
-- 
2.43.0


From ca3a75078f66401df9ab62a44d0282a07309a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:45 +0000
Subject: [PATCH 36/36] fix: Light.get_status drops the dimmers of the area or
 group

---
 pyown/items/lighting/light.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyown/items/lighting/light.py b/pyown/items/lighting/light.py
index ea6ea05..7f9b12b 100644
--- a/pyown/items/lighting/light.py
+++ b/pyown/items/lighting/light.py
@@ -66,7 +66,5 @@ class Light(BaseLight):
             tuple[Where, bool]: The where and the status of the light.
         """
         async for message in self.send_status_request():
-            if message.what == WhatLight.ON:
-                yield message.where, True
-            elif message.what == WhatLight.OFF:
-                yield message.where, False
+            # a dimmer in the same area or group responds with its level
+            yield message.where, message.what.tag != WhatLight.OFF
-- 
2.43.0

