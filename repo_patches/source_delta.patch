From 54ae5e9f69922f455c52d709150bb51fffd37350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 01/23] fix: keep FIFO order when the back page is loaded from
 the database

The back page is selected newest-first, but was appended to the page in that
order, so after a restart the last page of entries came out reversed.
---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 0381fa3..b1bfa50 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -182,7 +182,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
+        for record in reversed(records): # Newest first from the database, but the page is oldest first.
             self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
         self.__delete_record_ids(ids_to_delete)
-- 
2.43.0


From 59b1120e69eccb2fe8aae25b0665f20ab73a5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 02/23] fix: get_first_x_span_keys reports database and back
 page entries too

Only the front page was reported, so fewer keys than requested came back while
more entries were queued.
---
 ekosis/queues/paginated_queue.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index b1bfa50..f2fcef9 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -315,13 +315,22 @@ class PaginatedQueue(Generic[_QueuedType]):
     def is_empty(self) -> int:
         return self.size() == 0
 
-    # TODO: There is a bug with this:
-    #   - When there are fewer then the requested amount of items in the queue.
-    #   - It is currently possible for entries to be spread between front page, database
-    #   - and back page. And this only reports on what is in the front page.
+    # --------------------------------------------------------------------------------
+    def __get_first_x_database_span_keys(self, how_many: int) -> List[str]:
+        records = self.session.\
+            query(QueueRecord).\
+            order_by(asc(QueueRecord.record_id)).\
+            limit(how_many).all()
+        return [str(SpanKey.from_bytes(record.span_key)) for record in records]
+
     # --------------------------------------------------------------------------------
     async def get_first_x_span_keys(self, how_many: int = 1) -> List[str]:
-        return self.front_page.get_first_x_span_keys(how_many)
+        retval = self.front_page.get_first_x_span_keys(how_many)
+        if len(retval) < how_many and self.back_page is not self.front_page:
+            retval += self.__get_first_x_database_span_keys(how_many - len(retval))
+            if len(retval) < how_many:
+                retval += self.back_page.get_first_x_span_keys(how_many - len(retval))
+        return retval
 
     # --------------------------------------------------------------------------------
     async def clear(self):
-- 
2.43.0


From 8f7c6d8451888a07a37b2e84fb67d7c86267a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 03/23] fix: do not report queued requests without fields as
 missing

A request whose DTO has no fields is stored as {}, which is falsy: pop, inspect
and reprocess by span key removed or moved it and then reported it as not found.
---
 ekosis/requests/buffered_handler_base.py | 6 +++---
 ekosis/sending/buffered_sender_base.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 6ec200f..9056f75 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -91,14 +91,14 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
@@ -115,7 +115,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
         self._processing_paused = False
         self.__check_process_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index c6e5c84..67c7e8a 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -142,14 +142,14 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
@@ -166,7 +166,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
         self._sending_paused = False
         self.__check_process_send_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
-- 
2.43.0


From 76639d6cecaa2c214c68a7816a2af90b5529b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 04/23] fix: answer APPLICATION_BUSY when receiving is paused

The receiving-paused exception carries status 500, but was not handled by the
server and came out as UNHANDLED (999), which senders never retry.
---
 ekosis/servers/server_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index bd69610..1774680 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -6,6 +6,7 @@ from pydantic import ValidationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
+from ..requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
 from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..requests.status import Status
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -69,6 +70,12 @@ class ServerBase:
                 status   = e.status,
                 data     = e.message
             )
+        except BufferedRequestHandlerExceptionBase as e:
+            return ResponseDTO(
+                span_key = span_key,
+                status   = e.status,
+                data     = str(e)
+            )
         except Exception as e:
             return ResponseDTO(
                 span_key = span_key,
-- 
2.43.0


From 839a6854877b9373f3a9356f6c2e0e7a0672bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 05/23] fix: store a buffered request before acknowledging it

The push was left to a background task while the acknowledgement was returned:
a shutdown or an error in that task lost an acknowledged request.
---
 ekosis/requests/buffered_handler_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 9056f75..5afa224 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -9,7 +9,6 @@ from .handler_base import HandlerBase
 from .request_context import _set_current_span_key, _reset_current_span_key
 from .status import Status
 
-from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
 from ..queues.pending_queue import PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -224,7 +223,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
-        fire_and_forget_task(self.queue.push_pending(span_key, dto, 0, metadata))
+        await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
         return response
-- 
2.43.0


From c5f3c385c948ceb64ade0ff61965f69f161afa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 06/23] fix: keep a popped buffered request when processing
 raises or is cancelled

An exception from the endpoint, its middleware or DTO validation lost the popped
request and ended the processing task; cancellation at shutdown lost the request
being processed. Exceptions now move it to the error queue, cancellation puts it
back in the pending queue.
---
 ekosis/requests/buffered_handler_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 5afa224..0b01195 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -179,11 +179,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         while not self._processing_paused and await self.queue.has_pending():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self.request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             metadata      = buffered_item.metadata
             token         = _set_current_span_key(span_key)
             try:
+                request_data = self.request_dto_type(**buffered_item.data)
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
                 success = await self.process_buffered_request(span_key = span_key, dto = request_data)
                 await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
@@ -193,6 +194,11 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+            except asyncio.CancelledError: # We are being shut down, keep what we did not finish.
+                await self.queue.push_pending(span_key, request_data, retries, metadata)
+                raise
+            except Exception as e:
+                await self.queue.push_error(span_key, request_data, str(e), metadata)
             finally:
                 _reset_current_span_key(token)
 
-- 
2.43.0


From f7f69be30ca3506fd843bb271a80356370270744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 07/23] fix: keep a popped buffered message when sending is
 cancelled

Cancellation at shutdown, or a DTO that could not be rebuilt, lost the message
that had been popped from the pending queue.
---
 ekosis/sending/buffered_sender_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 67c7e8a..8b2e0ba 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -88,9 +88,10 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         while not self._sending_paused and self.queue.pending_q.size():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self._request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             try:
+                request_data = self._request_dto_type(**buffered_item.data)
                 if self.wait_period > 0:
                     await asyncio.sleep(self.wait_period)
                 await self.send_data(request_data, span_key)
@@ -100,6 +101,9 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                     await self.queue.push_error(span_key, request_data, "Max retries reached.")
                 else:
                     await self.queue.push_pending(span_key, request_data, retries)
+            except asyncio.CancelledError: # We are being shut down, keep what was not sent.
+                await self.queue.push_pending(span_key, request_data, retries)
+                raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
 
-- 
2.43.0


From 9aac192c6c6b66f54b56f8599cf73012d5a4b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 08/23] fix: do not let another call's success end the retry
 loop

The loop stopped on a flag shared by all calls on the client: when a concurrent
call succeeded, a call waiting to retry returned None.
---
 ekosis/clients/persistent_stream_client_base.py | 2 +-
 ekosis/clients/stream_client_base.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index e5f0690..3da9c4b 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -132,7 +132,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         await self.__check_heartbeat_task()
 
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index f75c95f..7c77c5b 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -47,7 +47,7 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
-- 
2.43.0


From 3d43aa8bf709ff8630ad7448f41a14fc2e322d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 09/23] fix: reject signed hexadecimal span ids

A 16 character string such as '-000000000000001' was accepted and produced a
span id that has no byte encoding.
---
 ekosis/data_transfer_objects/span_id.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index dfe914b..6d529ce 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -23,6 +23,8 @@ class SpanId:
             if len(hex_) != 16:
                 raise ValueError('badly formed hexadecimal SpanId string')
             int_ = int(hex_, 16)
+            if not 0 <= int_ < 1 << 64:
+                raise ValueError('badly formed hexadecimal SpanId string')
 
         self._value: int = int_
 
-- 
2.43.0


From b20b6c7abf56500ece62ab5a2aea83980fceefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 10/23] fix: keep the LRU cache ring consistent

The tail pointer was not maintained when items moved, so inserting after a move
dropped nodes from the ring; a single node had no links, so a cache of size one
could not evict; and emptied nodes were not reused, so that evicting dropped the
wrong item.
---
 ekosis/cacheing/lru_cache.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 79dd70f..7d49158 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -8,7 +8,6 @@ class LRUCache:
         self.max_size     : int                   = max_size
         self._cached_items: Dict[Any, LRUCachedItem] = {}
         self.head         : LRUCachedItem            = None
-        self.tail         : LRUCachedItem            = None
 
     # --------------------------------------------------------------------------------
     def __insert(self, key: Any, value: Any):
@@ -17,17 +16,13 @@ class LRUCache:
         new_node.key   = key
         new_node.value = value
         if self.head is None:
-            self.head = new_node
-            self.tail = new_node
+            new_node.previous       = new_node
+            new_node.next           = new_node
         else:
-            new_node.previous = self.tail
-            new_node.next     = self.head
-            if self.tail is self.head:
-                self.head.previous = new_node
-                self.head.next     = new_node
-            else:
-                self.tail.next     = new_node
-                self.head.previous = new_node
+            new_node.previous       = self.head.previous
+            new_node.next           = self.head
+            self.head.previous.next = new_node
+            self.head.previous      = new_node
         self._cached_items[key] = new_node
         return new_node
 
@@ -159,7 +154,7 @@ class LRUCache:
             self.__list_move_to_front(cached_item)
             return
 
-        if len(self._cached_items) < self.max_size:
+        if self.head is None or (len(self._cached_items) < self.max_size and not self.head.previous.empty):
             cached_item = self.__insert(key, value)
             self.head   = cached_item
         else:
-- 
2.43.0


From 795f111501722a5483177e7f29d41b07499351d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 11/23] fix: ignore a negative count when clearing errors

Clearing a negative number of errors raised the error count.
---
 ekosis/state_keepers/error_state_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/state_keepers/error_state_keeper.py b/ekosis/state_keepers/error_state_keeper.py
index 68eec26..0841ec0 100644
--- a/ekosis/state_keepers/error_state_keeper.py
+++ b/ekosis/state_keepers/error_state_keeper.py
@@ -24,6 +24,8 @@ class ErrorStateKeeper:
         self._error_count += 1
 
     def clear_some(self, how_many: int):
+        if how_many < 0: # There is nothing to clear.
+            return
         if self._error_count >= how_many:
             self._error_count = self._error_count - how_many
         else:
-- 
2.43.0


From ddb0809e5dbee67da40b3cab3fbc0c999a792c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 12/23] fix: treat a lock held by another user's live process
 as held

Signalling such a process fails with EPERM, which was taken for a dead process:
the lock file was removed and a second instance started.
---
 ekosis/application_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9ec61ce..070b2dc 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -132,6 +132,8 @@ class ApplicationBase(metaclass=SingletonType):
     def __process_id_check(process_id: int) -> bool:
         try:
             os.kill(process_id, 0)
+        except PermissionError: # It is running, it just isn't ours.
+            return True
         except OSError:
             return False
         return True
-- 
2.43.0


From 640ff9bc0669a05f3db3ce5e2f0e77a34c3db1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:40 +0000
Subject: [PATCH 13/23] fix: count a failed re-connect as a communications
 failure

Re-connecting from the except clause let a raw ConnectionRefusedError escape to
the caller, instead of the communications exceptions the client promises.
---
 ekosis/clients/persistent_stream_client_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 3da9c4b..dff5580 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -145,8 +145,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
                 BrokenPipeError,        # So we have to re-connect.
                 CommunicationsEmptyResponse
             ):
-                self.__connected = False
-                await self.__check_connected()
+                self.__connected = False # The next attempt re-connects.
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
-- 
2.43.0


From c27f5bbe3b31eef266d55b5211fce2cc0e06cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:40 +0000
Subject: [PATCH 14/23] fix: never give a persistent client's caller another
 request's response

After a timeout or cancellation the connection was re-used while the response
was still outstanding, so the next request was answered with it. Requests and
responses are now exchanged one at a time, and a connection with an outstanding
response is dropped.
---
 .../clients/persistent_stream_client_base.py  | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index dff5580..ea0efe8 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -34,8 +34,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         self.__heartbeat_time   : float                = heartbeat_period
         self.__connected        : bool                 = False
         self.__last_send        : float                = 0
-        self.__read_lock        : asyncio.Lock         = asyncio.Lock()
-        self.__write_lock       : asyncio.Lock         = asyncio.Lock()
+        self.__exchange_lock    : asyncio.Lock         = asyncio.Lock()
         self.__reader           : asyncio.StreamReader = None
         self.__writer           : asyncio.StreamWriter = None
         self.__heartbeat_task   : asyncio.Task         = None
@@ -56,27 +55,27 @@ class PersistentStreamClientBase(ClientBase, ABC):
             self.__reader, self.__writer = await self.open_connection()
             self.__connected = True
 
+    # One request and its response at a time, and never re-use a connection on which
+    # a response is still outstanding: The next request would be given that response.
     # --------------------------------------------------------------------------------
-    async def __do_write(self, data: bytes):
-        async with self.__write_lock:
-            self.__writer.write(data)
-
-    # --------------------------------------------------------------------------------
-    async def __do_read(self) -> bytes:
-        async with self.__read_lock:
-            return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+    async def __do_exchange(self, data: bytes) -> bytes:
+        async with self.__exchange_lock:
+            await self.__check_connected()
+            try:
+                self.__writer.write(data)
+                return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+            except BaseException:
+                self.__connected = False
+                self.__writer.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def __do_heartbeat(self):
         try:
-            await self.__check_connected() # check if we did connect in the past
+            data = await self.__do_exchange(self.__ENQ_request)
         except ConnectionRefusedError as e:
             return
 
-        await self.__do_write(self.__ENQ_request)
-
-        data = await self.__do_read()
-
         if (
             not data or
             data[-1] != self.__LF_byte or
@@ -102,14 +101,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        try:
-            await self.__check_connected()
-        except ConnectionRefusedError as e:
-            raise e
-
-        await self.__do_write(request.encode())
-
-        data = await self.__do_read()
+        data = await self.__do_exchange(request.encode())
         if not data or data[-1] != self.__LF_byte:
             self.__connected = False
             raise CommunicationsEmptyResponse()
-- 
2.43.0


From 2835b2614e7f061bc6434cf4eca4c5aaf8f85a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:40 +0000
Subject: [PATCH 15/23] fix: never give a datagram client's caller a late
 response

After a timeout the socket was re-used, so the late response to the request that
timed out was returned for the next request.
---
 ekosis/clients/datagram_client_base.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ecc4e0b..c81908f 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -58,16 +58,21 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, message: str) -> str:
-        if not self.initialised:
-            self.loop            = asyncio.get_running_loop()
-            self.transport, self.protocol = await self.loop.create_datagram_endpoint(
-                lambda: DatagramProtocolClient(self.timeout),
-                remote_addr=(self.server_host, self.server_port)
-            )
-            self.initialised = True
-
         async with self.send_lock:
-            return await self.protocol.send_message(message)
+            if not self.initialised:
+                self.loop            = asyncio.get_running_loop()
+                self.transport, self.protocol = await self.loop.create_datagram_endpoint(
+                    lambda: DatagramProtocolClient(self.timeout),
+                    remote_addr=(self.server_host, self.server_port)
+                )
+                self.initialised = True
+
+            try:
+                return await self.protocol.send_message(message)
+            except BaseException: # A late response may not be taken for the response to the next request.
+                self.initialised = False
+                self.transport.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From 195c5d87a4c37dc1d11c9fb50f93107cd8cbc759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:20 +0000
Subject: [PATCH 16/23] fix: refuse a buffered request when receiving is paused
 while its metadata is collected

---
 ekosis/requests/buffered_handler_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 0b01195..dd94e54 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -229,6 +229,8 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
+        if self._receiving_paused: # Paused, or shut down, while the middleware was busy.
+            raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
-- 
2.43.0


From 5846863db20a95abf99c4c610043df523affbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 17/23] fix: answer a request whose response can not be
 serialised

---
 ekosis/servers/json/udp.py           |  2 +-
 ekosis/servers/server_base.py        | 13 +++++++++++++
 ekosis/servers/stream_server_base.py |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 9e894f5..5ad9a39 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -67,7 +67,7 @@ class UDPServer(ServerBase):
     # --------------------------------------------------------------------------------
     async def __process_received_data(self, received_data: str):
         response_dict = await self._route_request(received_data)
-        return response_dict.model_dump_json()
+        return self._response_text(response_dict)
 
     # --------------------------------------------------------------------------------
     async def __create_datagram_listener(self):
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 1774680..128d488 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -3,6 +3,7 @@ import logging
 import timeit
 
 from pydantic import ValidationError
+from pydantic_core import PydanticSerializationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
@@ -28,6 +29,18 @@ class ServerBase:
     def get_transport_type(self) -> str:
         return self._transport_type
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def _response_text(response: ResponseDTO) -> str:
+        try:
+            return response.model_dump_json()
+        except PydanticSerializationError as e: # The data can not be represented in JSON, but the client needs an answer.
+            return ResponseDTO(
+                span_key = response.span_key,
+                status   = Status.UNHANDLED.value,
+                data     = str(e)
+            ).model_dump_json()
+
     # --------------------------------------------------------------------------------
     async def _route_request(self, request_text: str) -> ResponseDTO:
         span_key: SpanKey = None
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 16f2f96..4033cba 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -38,7 +38,7 @@ class StreamServerBase(ServerBase):
                     response_dict = await self._route_request(bytes_read.decode())
                     await self.__write_data(
                         writer,
-                        (response_dict.model_dump_json() + '\n').encode()
+                        (self._response_text(response_dict) + '\n').encode()
                     )
             except ConnectionResetError:
                 self._logger.info("Connection reset by peer")
-- 
2.43.0


From 55830af2afc79399229929f172035c955119797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:34 +0000
Subject: [PATCH 18/23] fix: raise the client-denied exception for every
 response payload

---
 ekosis/clients/client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 1c19a28..756db62 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -42,7 +42,7 @@ class ClientBase(ABC):
             return ProtocolParsingException(str(request.data))
 
         if request.status == Status.CLIENT_DENIED.value:
-            return ClientDeniedException(str(request.data.json()))
+            return ClientDeniedException(str(request.data))
 
         if request.status == Status.PYDANTIC_VALIDATION_ERROR.value:
             return PydanticValidationException(str(request.data))
-- 
2.43.0


From 8087c21737de3d3b970ee23d821755d37dfbe81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:31 +0000
Subject: [PATCH 19/23] fix: a lock file without a usable process id no longer
 prevents an instance from starting

An empty or otherwise unreadable lock file (left behind by a crash between
creating and writing it) made the start fail with a ValueError, and one naming
a process id of zero or below, or an absurdly large one, was taken for a running
instance or failed the start.
---
 ekosis/application_base.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 070b2dc..4fd7460 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -134,10 +134,20 @@ class ApplicationBase(metaclass=SingletonType):
             os.kill(process_id, 0)
         except PermissionError: # It is running, it just isn't ours.
             return True
-        except OSError:
+        except (OSError, OverflowError):
             return False
         return True
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __read_lock_file(lock_file_path: str) -> int | None:
+        try:
+            with open(lock_file_path, "r") as lock_file:
+                process_id = int(lock_file.readline())
+        except ValueError: # Not a process id, e.g.: We stopped in the middle of writing it.
+            return None
+        return process_id if process_id > 0 else None
+
     # --------------------------------------------------------------------------------
     @staticmethod
     def __create_lock_file(lock_file_path: str):
@@ -150,9 +160,8 @@ class ApplicationBase(metaclass=SingletonType):
         lock_file_name  = f"{self._configuration.name}-{self._configuration.instance}.lock"
         lock_file_path  = f"{self._configuration.lock_directory}/{lock_file_name}"
         if os.path.exists(lock_file_path):
-            with open(lock_file_path, "r") as lock_file:
-                process_id = int(lock_file.readline())
-            if self.__process_id_check(process_id):
+            process_id = self.__read_lock_file(lock_file_path)
+            if process_id is not None and self.__process_id_check(process_id):
                 raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
             os.remove(lock_file_path)
         self.__create_lock_file(lock_file_path)
-- 
2.43.0


From 8c7ff65e19a0d46ee86d7d93494361634c4573d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:01 +0000
Subject: [PATCH 20/23] fix: flush the log buffer under the handler's lock

A flush running in one thread while another thread logged wrote buffered
records twice, or dropped a record added between the loop and the reset.
---
 ekosis/logs/buffered_rotating_file_handler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index c9073ef..5c302be 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -31,9 +31,13 @@ class BufferedRotatingFileHandler(BufferingHandler):
         self.rotating_file_handler.setFormatter(formatter)
 
     def flush(self):
-        for record in self.buffer:
-            self.rotating_file_handler.emit(record)
-        self.buffer = []
+        self.acquire()
+        try:
+            for record in self.buffer:
+                self.rotating_file_handler.emit(record)
+            self.buffer = []
+        finally:
+            self.release()
 
     def close(self): # pragma: no cover
         self.rotating_file_handler.close()
-- 
2.43.0


From cf004dc2d1ee7a727cd57394c1465d3b656e8d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:01 +0000
Subject: [PATCH 21/23] fix: close the log file after flushing the buffer into
 it

Closing it first made the flush reopen the file, which was then left open,
and with mode 'w' truncated everything written before.
---
 ekosis/logs/buffered_rotating_file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index 5c302be..d55909a 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -40,5 +40,5 @@ class BufferedRotatingFileHandler(BufferingHandler):
             self.release()
 
     def close(self): # pragma: no cover
+        super().close() # Flushes the buffer, so the file has to still be open.
         self.rotating_file_handler.close()
-        super().close()
-- 
2.43.0


From f82b6f69b74a2dec9822815f669df9b8aad86be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:22 +0000
Subject: [PATCH 22/23] fix: start with the configured log level

The level read from ECOENV_LOG_LEVEL or the configuration file was never
applied, every application logged at debug level until told otherwise.
---
 ekosis/logs/logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index eac2150..3f684d1 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -88,6 +88,7 @@ class EcoLogger(metaclass=SingletonType):
             self.__setup_console_logging()
 
         self.__logger.setLevel(self.__level)
+        self.set_level(self.__log_config.level)
         # This switches asyncio logging to level WARNING
         # logging.getLogger('asyncio').setLevel(logging.WARNING)
 
-- 
2.43.0


From f57dce179feaf5f51998da171c5d571ca9ca4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:19 +0000
Subject: [PATCH 23/23] fix: log records keep the span of the request they were
 logged in

With a log buffer, records were formatted when the buffer was flushed and
got the trace and span id of whatever request was being handled then.
---
 ekosis/logs/buffered_rotating_file_handler.py | 7 +++++++
 ekosis/logs/otlp_formatter.py                 | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index d55909a..cee12fe 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -1,5 +1,7 @@
 from logging.handlers import RotatingFileHandler, BufferingHandler
 
+from ..requests.request_context import _get_current_span_key
+
 # --------------------------------------------------------------------------------
 class BufferedRotatingFileHandler(BufferingHandler):
     def __init__(
@@ -30,6 +32,11 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def setFormatter(self, formatter):
         self.rotating_file_handler.setFormatter(formatter)
 
+    def emit(self, record):
+        # Formatting happens on flush, possibly while another request is being handled.
+        record.eco_span_key = _get_current_span_key()
+        super().emit(record)
+
     def flush(self):
         self.acquire()
         try:
diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index dea5e83..2161590 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -9,7 +9,7 @@ from ..requests.request_context import _get_current_span_key
 class OtlpFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
         severity_number, severity_text = severity_for_levelno(record.levelno)
-        span_key                       = _get_current_span_key()
+        span_key                       = record.eco_span_key if hasattr(record, "eco_span_key") else _get_current_span_key()
         app_config                     = AppConfiguration()
 
         log_record = OtlpLogRecord(
-- 
2.43.0

