From 5392b4bc4bea3cb1ca17ac0f42f477a7ef3356a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:58 +0000
Subject: [PATCH 01/52] fix: keep queue order when the back page is loaded
 after a restart

---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 0381fa3..f4e060b 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -182,7 +182,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
+        for record in reversed(records): # queried newest first, the page is oldest first
             self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
         self.__delete_record_ids(ids_to_delete)
-- 
2.43.0


From e078172973c0e9c390bf024eb70b3b3f2359885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:58 +0000
Subject: [PATCH 02/52] fix: list first span keys across front page, database
 and back page

---
 ekosis/queues/paginated_queue.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index f4e060b..99081e4 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -315,13 +315,19 @@ class PaginatedQueue(Generic[_QueuedType]):
     def is_empty(self) -> int:
         return self.size() == 0
 
-    # TODO: There is a bug with this:
-    #   - When there are fewer then the requested amount of items in the queue.
-    #   - It is currently possible for entries to be spread between front page, database
-    #   - and back page. And this only reports on what is in the front page.
+    # Entries can be spread between front page, database and back page, in that order.
     # --------------------------------------------------------------------------------
     async def get_first_x_span_keys(self, how_many: int = 1) -> List[str]:
-        return self.front_page.get_first_x_span_keys(how_many)
+        span_keys = self.front_page.get_first_x_span_keys(how_many)
+        if len(span_keys) < how_many:
+            records = self.session.\
+                query(QueueRecord.span_key).\
+                order_by(asc(QueueRecord.record_id)).\
+                limit(how_many - len(span_keys)).all()
+            span_keys.extend(str(SpanKey.from_bytes(record.span_key)) for record in records)
+        if len(span_keys) < how_many and self.back_page is not self.front_page:
+            span_keys.extend(self.back_page.get_first_x_span_keys(how_many - len(span_keys)))
+        return span_keys
 
     # --------------------------------------------------------------------------------
     async def clear(self):
-- 
2.43.0


From 79eebbf6c32f36139a83690c27cbf98ae9352521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:58 +0000
Subject: [PATCH 03/52] fix: a failed queue transaction leaves the queue as it
 was

---
 ekosis/queues/paginated_queue.py | 113 ++++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 40 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 99081e4..738e5d7 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -1,6 +1,7 @@
 import json
 import sqlalchemy
 
+from contextlib import contextmanager
 from typing import cast, Dict, List, Type, TypeVar, Generic
 
 from pydantic import BaseModel as PydanticBaseModel
@@ -134,14 +135,31 @@ class PaginatedQueue(Generic[_QueuedType]):
         self.session = sessionmaker(bind=self.database_engine, autoflush=False)()
         self.__do_initial_load()
 
+    # Both pages leave the database in one transaction, so that a failure here
+    # can not take the front page with it.
     # --------------------------------------------------------------------------------
     def __do_initial_load(self):
-        if self.__get_database_size() > 0:
-            self.__load_front_page()
-
-        if self.__get_database_size() > 0: # If there is still data AFTER loading the front page.
+        database_size = self.__get_database_size()
+        if database_size < 1:
+            return
+
+        front_records = self.__get_records(asc(QueueRecord.record_id), self.page_size)
+        remaining     = database_size - len(front_records)
+        back_records  = []
+        if remaining > 0: # If there is still data AFTER loading the front page.
+            back_records = self.__get_records(desc(QueueRecord.record_id), min(self.page_size, remaining))
+            back_records.reverse() # queried newest first, the page is oldest first
+
+        front_entries = self.__make_page_entries(front_records)
+        back_entries  = self.__make_page_entries(back_records)
+        with self.__transaction():
+            self.__delete_records(front_records)
+            self.__delete_records(back_records)
+
+        self.__fill_page(self.front_page, front_entries)
+        if len(back_entries) > 0:
             self.back_page = QueuePage(self.queued_type)
-            self.__load_back_page()
+            self.__fill_page(self.back_page, back_entries)
 
     # --------------------------------------------------------------------------------
     def __get_max_record_id(self) -> int:
@@ -155,37 +173,49 @@ class PaginatedQueue(Generic[_QueuedType]):
             return 0
         return int(self.session.query(func.min(QueueRecord.record_id)).scalar())
 
+    # A failed transaction must leave nothing behind in the session, or the next
+    # operation would either be refused, or commit half of this one.
     # --------------------------------------------------------------------------------
-    def __delete_record_ids(self, record_ids: List[int]):
-        self.session.\
-            query(QueueRecord).\
-            filter(QueueRecord.record_id.in_(record_ids)).\
-            delete(synchronize_session='fetch')
-        self.session.commit()
+    @contextmanager
+    def __transaction(self):
+        try:
+            yield
+            self.session.commit()
+        except BaseException:
+            self.session.rollback()
+            raise
 
     # --------------------------------------------------------------------------------
-    def __load_front_page(self):
-        records = self.session.\
-            query(QueueRecord).\
-            order_by(asc(QueueRecord.record_id)).\
-            limit(self.page_size).all()
+    def __delete_records(self, records: List[QueueRecord]):
+        record_ids: List[int] = [int(x.record_id) for x in records]
+        if len(record_ids) > 0:
+            self.session.\
+                query(QueueRecord).\
+                filter(QueueRecord.record_id.in_(record_ids)).\
+                delete(synchronize_session='fetch')
+
+    # --------------------------------------------------------------------------------
+    def __get_records(self, ordering, how_many: int) -> List[QueueRecord]:
+        return self.session.query(QueueRecord).order_by(ordering).limit(how_many).all()
 
-        for record in records:
-            self.front_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
-        ids_to_delete: List[int] = [int(x.record_id) for x in records]
-        self.__delete_record_ids(ids_to_delete)
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __make_page_entries(records: List[QueueRecord]):
+        return [(str(record.object_string), SpanKey.from_bytes(record.span_key)) for record in records]
 
     # --------------------------------------------------------------------------------
-    def __load_back_page(self):
-        records = self.session.\
-            query(QueueRecord).\
-            order_by(desc(QueueRecord.record_id)).\
-            limit(self.page_size).all()
+    @staticmethod
+    def __fill_page(page: QueuePage, entries):
+        for object_string, span_key in entries:
+            page.push_with_str(object_string, span_key)
 
-        for record in reversed(records): # queried newest first, the page is oldest first
-            self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
-        ids_to_delete: List[int] = [int(x.record_id) for x in records]
-        self.__delete_record_ids(ids_to_delete)
+    # --------------------------------------------------------------------------------
+    def __load_front_page(self):
+        records = self.__get_records(asc(QueueRecord.record_id), self.page_size)
+        entries = self.__make_page_entries(records)
+        with self.__transaction():
+            self.__delete_records(records)
+        self.__fill_page(self.front_page, entries)
 
     # --------------------------------------------------------------------------------
     def __write_front_page(self):
@@ -199,9 +229,12 @@ class PaginatedQueue(Generic[_QueuedType]):
                 object_string= entry.object_string
             ))
             min_record_id -= 1
-        self.session.bulk_save_objects(data_to_write)
-        self.session.commit()
-        self.front_page = QueuePage(self.queued_type)
+        with self.__transaction():
+            self.session.bulk_save_objects(data_to_write)
+        if self.back_page is self.front_page:
+            self.back_page = self.front_page = QueuePage(self.queued_type)
+        else:
+            self.front_page = QueuePage(self.queued_type)
 
     # --------------------------------------------------------------------------------
     def __write_back_page(self):
@@ -215,8 +248,8 @@ class PaginatedQueue(Generic[_QueuedType]):
                 object_string= entry.object_string
             ))
             max_record_id += 1
-        self.session.bulk_save_objects(data_to_write)
-        self.session.commit()
+        with self.__transaction():
+            self.session.bulk_save_objects(data_to_write)
         self.back_page = QueuePage(self.queued_type)
 
     # --------------------------------------------------------------------------------
@@ -307,8 +340,8 @@ class PaginatedQueue(Generic[_QueuedType]):
         if record is None:
             return None
         queued_data = json.loads(record.object_string)
-        self.session.delete(record)
-        self.session.commit()
+        with self.__transaction():
+            self.session.delete(record)
         return self.queued_type(**queued_data)
 
     # --------------------------------------------------------------------------------
@@ -333,10 +366,10 @@ class PaginatedQueue(Generic[_QueuedType]):
     async def clear(self):
         metadata = MetaData()
         table    = Table("queued_objects", metadata, autoload_with=self.database_engine)
-        self.session.query(table).filter(table.c.record_id > 0).delete()
-        self.session.query(table).filter(table.c.record_id < 0).delete()
-        self.session.query(table).filter(table.c.record_id == 0).delete()
-        self.session.commit()
+        with self.__transaction():
+            self.session.query(table).filter(table.c.record_id > 0).delete()
+            self.session.query(table).filter(table.c.record_id < 0).delete()
+            self.session.query(table).filter(table.c.record_id == 0).delete()
         self.front_page = QueuePage(self.queued_type)
         self.back_page  = self.front_page
 
-- 
2.43.0


From 04b580ed6bac598d0934e81845061ba3f032b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 04/52] fix: a buffered request that raises or is interrupted
 is not lost

---
 ekosis/requests/buffered_handler_base.py | 64 ++++++++++++++++++------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 6ec200f..d52d12e 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -1,4 +1,5 @@
 import asyncio
+import copy
 import logging
 
 from pydantic import BaseModel as PydanticBaseModel
@@ -11,7 +12,7 @@ from .status import Status
 
 from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
-from ..queues.pending_queue import PendingQueue
+from ..queues.pending_queue import PendingEntry, PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
 from ..middleware.buffered_middleware_manager import BufferedMiddlewareManager
 
@@ -178,24 +179,55 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def __do_queue_processing(self):
         while not self._processing_paused and await self.queue.has_pending():
-            buffered_item = await self.queue.pop()
-            span_key      = buffered_item.span_key
-            request_data  = self.request_dto_type(**buffered_item.data)
-            retries       = buffered_item.retries
-            metadata      = buffered_item.metadata
-            token         = _set_current_span_key(span_key)
+            await self.__process_buffered_item(await self.queue.pop())
+
+    # The item is no longer in the queue at this point, so every way out of here must
+    # either have processed it, or have put it back in one of the queues.
+    # --------------------------------------------------------------------------------
+    async def __process_buffered_item(self, buffered_item: PendingEntry):
+        span_key = buffered_item.span_key
+        data     = buffered_item.data
+        retries  = buffered_item.retries
+        metadata = buffered_item.metadata
+        success  = None # Not known until the handler is done.
+        token    = _set_current_span_key(span_key)
+        try:
+            try:
+                request_data = self.request_dto_type(**copy.deepcopy(data))
+            except Exception as e: # Trying again can not help.
+                await self.queue.push_error(span_key, data, str(e), metadata)
+                return
+
             try:
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
-                success = await self.process_buffered_request(span_key = span_key, dto = request_data)
+                success = bool(await self.process_buffered_request(span_key = span_key, dto = request_data))
+            except Exception as e: # An attempt that raises, is a failed attempt.
+                self.log.error(f"Buffered handler [{self._route_key}] failed on [{span_key}]: {type(e).__name__}: {e}")
+                success = False
+
+            try:
                 await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
-                if not success:
-                    retries += 1
-                    if retries >= self.max_retries:
-                        await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
-                    else:
-                        await self.queue.push_pending(span_key, request_data, retries, metadata)
-            finally:
-                _reset_current_span_key(token)
+            except Exception as e:
+                self.log.error(f"Buffered middleware failed on [{span_key}]: {type(e).__name__}: {e}")
+
+            if not success:
+                await self.__put_back_failed(span_key, data, retries, metadata)
+        except asyncio.CancelledError:
+            if success is None: # Interrupted, that was not an attempt.
+                await self.queue.push_pending(span_key, data, retries, metadata)
+            elif not success:
+                await self.__put_back_failed(span_key, data, retries, metadata)
+            raise
+        finally:
+            _reset_current_span_key(token)
+
+    # --------------------------------------------------------------------------------
+    async def __put_back_failed(self, span_key: SpanKey, data, retries: int, metadata: dict):
+        retries += 1
+        if retries >= self.max_retries:
+            await self.queue.push_error(span_key, data, "Max retries reached.", metadata)
+        else:
+            await self.queue.push_pending(span_key, data, retries, metadata)
 
     # --------------------------------------------------------------------------------
     async def _process_queue(self):
-- 
2.43.0


From e18b669bb74259b428f0034680778b96e3e81fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 05/52] fix: a buffered sender that is interrupted keeps the
 message it was sending

---
 ekosis/sending/buffered_sender_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index c6e5c84..11df183 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -88,9 +88,10 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         while not self._sending_paused and self.queue.pending_q.size():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self._request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             try:
+                request_data = self._request_dto_type(**buffered_item.data)
                 if self.wait_period > 0:
                     await asyncio.sleep(self.wait_period)
                 await self.send_data(request_data, span_key)
@@ -100,6 +101,9 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                     await self.queue.push_error(span_key, request_data, "Max retries reached.")
                 else:
                     await self.queue.push_pending(span_key, request_data, retries)
+            except asyncio.CancelledError: # Interrupted, it still has to be sent.
+                await self.queue.push_pending(span_key, request_data, retries)
+                raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
 
-- 
2.43.0


From ada8341aa7167e8c42b920ff9dc843b200a1ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 06/52] fix: acknowledge a buffered request only once it is in
 the queue

---
 ekosis/requests/buffered_handler_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index d52d12e..9524ae2 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -10,7 +10,6 @@ from .handler_base import HandlerBase
 from .request_context import _set_current_span_key, _reset_current_span_key
 from .status import Status
 
-from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
 from ..queues.pending_queue import PendingEntry, PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -256,7 +255,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
-        fire_and_forget_task(self.queue.push_pending(span_key, dto, 0, metadata))
+        await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
         return response
-- 
2.43.0


From a52755ac7dfcbf5713d8f75feb6c75c8b9ae53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 07/52] fix: reprocessing errors does not end a pause

---
 ekosis/requests/buffered_handler_base.py | 6 +-----
 ekosis/sending/buffered_sender_base.py   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 9524ae2..0cf493f 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -104,16 +104,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
-        self._processing_paused = True
         await self.queue.move_all_error_to_pending()
-        self._processing_paused = False
         self.__check_process_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
-        self._processing_paused = True
-        buffered_request        = await self.queue.move_one_error_to_pending(span_key)
-        self._processing_paused = False
+        buffered_request = await self.queue.move_one_error_to_pending(span_key)
         self.__check_process_queue()
         if not buffered_request:
             return None
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 11df183..5a9e6c6 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -159,16 +159,12 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
-        self._sending_paused = True
         await self.queue.move_all_error_to_pending()
-        self._sending_paused = False
         self.__check_process_send_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
-        self._sending_paused = True
-        buffered_request     = await self.queue.move_one_error_to_pending(span_key)
-        self._sending_paused = False
+        buffered_request = await self.queue.move_one_error_to_pending(span_key)
         self.__check_process_send_queue()
         if not buffered_request:
             return None
-- 
2.43.0


From 299896e5fe56fc7099ee2c1bb8f011e8438c8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 08/52] fix: requests without content can be inspected, popped
 and reprocessed

---
 ekosis/requests/buffered_handler_base.py | 6 +++---
 ekosis/sending/buffered_sender_base.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 0cf493f..dbc63c5 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -91,14 +91,14 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
@@ -111,7 +111,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.move_one_error_to_pending(span_key)
         self.__check_process_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 5a9e6c6..086d0f0 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -146,14 +146,14 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
@@ -166,7 +166,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
         buffered_request = await self.queue.move_one_error_to_pending(span_key)
         self.__check_process_send_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
-- 
2.43.0


From 6f66fa381461928bfe832f3f5cfc77f7b43c4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 09/52] fix: a paused buffered endpoint answers busy, not
 unhandled

---
 ekosis/servers/server_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index bd69610..70e715b 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -5,6 +5,7 @@ import timeit
 from pydantic import ValidationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
+from ..requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
 from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..requests.status import Status
@@ -63,6 +64,12 @@ class ServerBase:
                 status   = Status.PYDANTIC_VALIDATION_ERROR.value,
                 data     = str(e)
             )
+        except BufferedRequestHandlerExceptionBase as e:
+            return ResponseDTO(
+                span_key = span_key,
+                status   = e.status,
+                data     = str(e)
+            )
         except RoutingExceptionBase as e:
             return ResponseDTO(
                 span_key = span_key,
-- 
2.43.0


From 5cf7b2665736924b79626cf8c8c621134053554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:50 +0000
Subject: [PATCH 10/52] fix: a termination signal ends the application wherever
 it arrives

---
 ekosis/application_base.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9ec61ce..8e69906 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -77,6 +77,9 @@ class ApplicationBase(metaclass=SingletonType):
     __statistics_keeper   : StatisticsKeeper        = StatisticsKeeper()
     __error_state_list    : ErrorStateList          = ErrorStateList()
     __running             : bool                    = False
+    __terminating         : bool                    = False
+    __event_loop          : asyncio.AbstractEventLoop = None
+    __main_task           : asyncio.Task            = None
     _configuration        : AppConfiguration        = AppConfiguration()
     __server_tcp          : TCPServer               = None
     __server_udp          : UDPServer               = None
@@ -86,10 +89,18 @@ class ApplicationBase(metaclass=SingletonType):
     def __init__(self):
         self.__configure_basics()
 
+    # A signal handler can run between any two instructions of any task. So, once
+    # the event loop is running, it does not raise there: it has the loop cancel the
+    # main task. And, once we are busy stopping, it does not interrupt that.
     # --------------------------------------------------------------------------------
-    @staticmethod
-    def __handle_exit_signal(signum, frame):
-        raise TerminationSignalException("Exit signal received")
+    def __handle_exit_signal(self, signum, frame):
+        if self.__terminating:
+            return
+        self.__terminating = True
+        if self.__event_loop is None:
+            raise TerminationSignalException("Exit signal received")
+        if not self.__event_loop.is_closed():
+            self.__event_loop.call_soon_threadsafe(self.__main_task.cancel)
 
     # --------------------------------------------------------------------------------
     def __setup_signal_handlers(self):
@@ -104,6 +115,7 @@ class ApplicationBase(metaclass=SingletonType):
 
     # --------------------------------------------------------------------------------
     def __exit__(self, exc_type, exc_val, exc_tb):
+        self.__terminating = True
         if exc_type is not None:
             if not isinstance(exc_val, asyncio.CancelledError) \
                     and not isinstance(exc_val, TerminationSignalException):
@@ -277,6 +289,24 @@ class ApplicationBase(metaclass=SingletonType):
 
     # --------------------------------------------------------------------------------
     async def __start(self):
+        self.__main_task  = asyncio.current_task()
+        self.__event_loop = asyncio.get_running_loop()
+        try:
+            await self.__run_until_done()
+        finally:
+            self.__pause_buffered_work()
+
+    # From here on tasks are cancelled, nothing new may be started.
+    # --------------------------------------------------------------------------------
+    def __pause_buffered_work(self):
+        for buffered_handler in self.__request_router.get_buffered_handlers():
+            buffered_handler.pause_receiving()
+            buffered_handler.pause_processing()
+        for buffered_sender in BufferedSenderKeeper().get_buffered_senders():
+            buffered_sender.pause_send_process()
+
+    # --------------------------------------------------------------------------------
+    async def __run_until_done(self):
         tasks = []
 
         await self.__setup_buffered_handlers()
-- 
2.43.0


From 6eed5f061864f8180e2ab91ff7ee987d893ea83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:50 +0000
Subject: [PATCH 11/52] fix: shutting down saves every queue, also when one of
 them fails

---
 ekosis/application_base.py               | 14 +++++++++++---
 ekosis/queues/pending_queue.py           |  6 ++++--
 ekosis/requests/buffered_handler_base.py |  5 +++--
 ekosis/sending/buffered_sender_base.py   |  5 +++--
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 8e69906..17e01ed 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -218,14 +218,22 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     def __shut_down_buffered_handlers(self):
         for buffered_handler in self.__request_router.get_buffered_handlers():
-            buffered_handler.shut_down()
+            self.__shut_down_buffered(buffered_handler)
 
+    # Trouble with one queue may not keep the others from being saved.
     # --------------------------------------------------------------------------------
     @staticmethod
-    def __shut_down_buffered_senders():
+    def __shut_down_buffered(buffered):
+        try:
+            buffered.shut_down()
+        except Exception as e:
+            ApplicationBase.logger.error(f"Shutdown of [{buffered.get_route_key()}] failed: {type(e).__name__}: {e}")
+
+    # --------------------------------------------------------------------------------
+    def __shut_down_buffered_senders(self):
         buffered_sender_keeper = BufferedSenderKeeper()
         for buffered_sender in buffered_sender_keeper.get_buffered_senders():
-            buffered_sender.shut_down()
+            self.__shut_down_buffered(buffered_sender)
 
     # --------------------------------------------------------------------------------
     def start(self):
diff --git a/ekosis/queues/pending_queue.py b/ekosis/queues/pending_queue.py
index d8b7ca6..4052989 100644
--- a/ekosis/queues/pending_queue.py
+++ b/ekosis/queues/pending_queue.py
@@ -37,8 +37,10 @@ class PendingQueue:
 
     # --------------------------------------------------------------------------------
     def shut_down(self):
-        self.pending_q.shut_down()
-        self.error_q.shut_down()
+        try:
+            self.pending_q.shut_down()
+        finally:
+            self.error_q.shut_down()
 
     # --------------------------------------------------------------------------------
     async def has_pending(self):
diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index dbc63c5..17d673c 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -159,11 +159,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
-        if not self.running and self.shutdown:
+        if not self.running and self.shutdown and self.queue is not None:
             route_key = self.get_route_key()
             self.log.info(f"Buffered handler [{route_key}] stopping.")
             self.queue.shut_down()
-            self.on_shutdown_future.set_result(True)
+            if self.on_shutdown_future is not None:
+                self.on_shutdown_future.set_result(True)
             self.log.info(f"Buffered handler [{route_key}] stopped.")
 
     # --------------------------------------------------------------------------------
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 086d0f0..3bdc744 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -71,11 +71,12 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
-        if not self.running and self.shutdown:
+        if not self.running and self.shutdown and self.queue is not None:
             route_key = self.get_route_key()
             self.log.info(f"Buffered sender [{route_key}] stopping.")
             self.queue.shut_down()
-            self.on_shutdown_future.set_result(True)
+            if self.on_shutdown_future is not None:
+                self.on_shutdown_future.set_result(True)
             self.log.info(f"Buffered sender [{route_key}] stopped.")
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From fdb26a00e083469dad594f501dc5629874e843ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:28 +0000
Subject: [PATCH 12/52] fix: failing to open an error queue does not lose the
 pending queue

---
 ekosis/queues/pending_queue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ekosis/queues/pending_queue.py b/ekosis/queues/pending_queue.py
index 4052989..8a0eb36 100644
--- a/ekosis/queues/pending_queue.py
+++ b/ekosis/queues/pending_queue.py
@@ -33,7 +33,11 @@ class PendingQueue:
         page_size     : int = 100
     ) -> None:
         self.__setup_pending_q(f"{directory}/{file_basename}-pending.sqlite", page_size)
-        self.__setup_error_q  (f"{directory}/{file_basename}-error.sqlite"  , page_size)
+        try:
+            self.__setup_error_q(f"{directory}/{file_basename}-error.sqlite", page_size)
+        except BaseException:
+            self.pending_q.shut_down() # What it holds in memory is not in its file.
+            raise
 
     # --------------------------------------------------------------------------------
     def shut_down(self):
-- 
2.43.0


From 8a515fecacbb5aca3c0c30d7376afdbff8f5c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:49 +0000
Subject: [PATCH 13/52] fix: a request in the hands of the middleware is not
 queued once receiving is paused

---
 ekosis/requests/buffered_handler_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 17d673c..9d7ac3c 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -252,6 +252,8 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
+        if self._receiving_paused: # It could have been paused in the mean time.
+            raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
-- 
2.43.0


From 198f8298ac42377d079ab9b94f1f693a775c6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:34 +0000
Subject: [PATCH 14/52] fix: calls sharing a client do not end each other, and
 at least one attempt is made

---
 ekosis/clients/client_base.py                   | 4 ----
 ekosis/clients/datagram_client_base.py          | 2 +-
 ekosis/clients/persistent_stream_client_base.py | 6 ++----
 ekosis/clients/stream_client_base.py            | 6 ++----
 4 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 1c19a28..61a9d03 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -27,8 +27,6 @@ class ClientBase(ABC):
     ):
         self.max_retries: int   = max_retries
         self.retry_delay: float = retry_delay
-        self.retry_count: int   = 0
-        self.success    : bool  = False
 
     # --------------------------------------------------------------------------------
     @abstractmethod
@@ -70,8 +68,6 @@ class ClientBase(ABC):
         span_key         : SpanKey                 = None,
     ) -> PydanticBaseModel:
         span_key_to_use  = span_key if span_key else SpanKey.generate()
-        self.success     = False
-        self.retry_count = 0
         request          = RequestDTO(span_key = span_key_to_use, route_key = route_key, data = data)
         request_str      = request.model_dump_json()
         response_str     = await self._send_message_retry_loop(f"{request_str}\n")
diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ecc4e0b..c1a2b69 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -72,7 +72,7 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries:
+        while True:
             try:
                 response = await self._send_message(request)
                 return response
diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index e5f0690..8d2caad 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -132,11 +132,9 @@ class PersistentStreamClientBase(ClientBase, ABC):
         await self.__check_heartbeat_task()
 
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while True:
             try:
-                response_str = await self._send_message(request)
-                self.success = True
-                return response_str
+                return await self._send_message(request)
             except (TimeoutError, asyncio.TimeoutError):
                 retry_count = await self.__do_retry_logic(retry_count)
             except (
diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index f75c95f..c51bbe8 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -47,11 +47,9 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while True:
             try:
-                response_str = await self._send_message(request)
-                self.success = True
-                return response_str
+                return await self._send_message(request)
             except (
                 TimeoutError,           # Timeouts mean the connection is fine
                 asyncio.TimeoutError,   # it's just taking too long. i.e. Retryable.
-- 
2.43.0


From ac00f14031ea5549443c226bb8291ea622ae07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:34 +0000
Subject: [PATCH 15/52] fix: a denied request raises ClientDeniedException

---
 ekosis/clients/client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 61a9d03..2d19b0e 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -40,7 +40,7 @@ class ClientBase(ABC):
             return ProtocolParsingException(str(request.data))
 
         if request.status == Status.CLIENT_DENIED.value:
-            return ClientDeniedException(str(request.data.json()))
+            return ClientDeniedException(str(request.data))
 
         if request.status == Status.PYDANTIC_VALIDATION_ERROR.value:
             return PydanticValidationException(str(request.data))
-- 
2.43.0


From 7841d2b35a2df8cd7a8a7dc7bc2420dabbdce8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:40 +0000
Subject: [PATCH 16/52] fix: a client accepts only a response to its own
 request

---
 ekosis/clients/client_base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 2d19b0e..33ad4ee 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -8,6 +8,7 @@ from ..data_transfer_objects import RequestDTO, ResponseDTO, EmptyDto, SpanKey
 from ..requests.status import Status
 
 from ..exceptions import (
+    CommunicationsNonRetryable,
     ProtocolParsingException,
     ClientDeniedException,
     PydanticValidationException,
@@ -59,6 +60,14 @@ class ClientBase(ABC):
 
         return UnknownStatusCodeException(f"Unrecognised status code[{request.status}]: {str(request.data)}")
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __parse_response(response_str: str) -> ResponseDTO:
+        try:
+            return ResponseDTO(**json.loads(response_str))
+        except (ValueError, TypeError) as e:
+            raise CommunicationsNonRetryable(f"Response not understood: {str(e)}")
+
     # --------------------------------------------------------------------------------
     async def send_message(
         self,
@@ -71,8 +80,11 @@ class ClientBase(ABC):
         request          = RequestDTO(span_key = span_key_to_use, route_key = route_key, data = data)
         request_str      = request.model_dump_json()
         response_str     = await self._send_message_retry_loop(f"{request_str}\n")
-        response_dict    = json.loads(response_str)
-        response         = ResponseDTO(**response_dict)
+        response         = self.__parse_response(response_str)
+
+        # A server that could not make out the span key of a request, responds without one.
+        if response.span_key is not None and response.span_key != span_key_to_use:
+            raise CommunicationsNonRetryable(f"Response is for span key [{response.span_key}], not [{span_key_to_use}]")
 
         if response.status != Status.SUCCESS.value:
             raise self.generate_response_exception(response)
-- 
2.43.0


From 34e6ae33ec517cda74092adbc365e763f607bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:22 +0000
Subject: [PATCH 17/52] fix: transient clients bound the whole attempt, refuse
 partial responses and always close their connection

---
 ekosis/clients/stream_client_base.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index c51bbe8..5b16cd3 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -16,6 +16,8 @@ log = logging.getLogger()
 
 # --------------------------------------------------------------------------------
 class StreamClientBase(ClientBase, ABC):
+    __LF_byte: int = 10 # Decimal 10 = Ascii LF (line feed) character = '\n'
+
     def __init__(
         self,
         timeout    : float = 5,
@@ -32,17 +34,18 @@ class StreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        reader, writer = await self.open_connection()
-        writer.write(request.encode())
+        async with asyncio.timeout(self.__timeout):
+            reader, writer = await self.open_connection()
+            try:
+                writer.write(request.encode())
 
-        data = await asyncio.wait_for(reader.readline(), self.__timeout)
-        if not data:
-            raise CommunicationsEmptyResponse()
+                data = await reader.readline()
+                if not data or data[-1] != self.__LF_byte:
+                    raise CommunicationsEmptyResponse()
 
-        response_str = data.decode()
-        writer.close()
-        await writer.wait_closed()
-        return response_str
+                return data.decode()
+            finally:
+                writer.close()
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From 409fc15d2671a3904307a7c60c7a9c60b16499df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 18/52] fix: a persisted client never reuses a connection that
 is out of step or broken, and its heartbeat survives failures

---
 .../clients/persistent_stream_client_base.py  | 91 +++++++++----------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 8d2caad..1a68705 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -34,8 +34,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         self.__heartbeat_time   : float                = heartbeat_period
         self.__connected        : bool                 = False
         self.__last_send        : float                = 0
-        self.__read_lock        : asyncio.Lock         = asyncio.Lock()
-        self.__write_lock       : asyncio.Lock         = asyncio.Lock()
+        self.__exchange_lock    : asyncio.Lock         = asyncio.Lock()
         self.__reader           : asyncio.StreamReader = None
         self.__writer           : asyncio.StreamWriter = None
         self.__heartbeat_task   : asyncio.Task         = None
@@ -45,46 +44,53 @@ class PersistentStreamClientBase(ClientBase, ABC):
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]: # pragma: no cover
         pass
 
+    # --------------------------------------------------------------------------------
+    def __drop_connection(self):
+        self.__connected = False
+        if self.__writer is not None:
+            self.__writer.close()
+
     # --------------------------------------------------------------------------------
     async def close_connection(self):
-        self.__writer.close()
-        await self.__writer.wait_closed()
+        if self.__heartbeat_task is not None:
+            self.__heartbeat_task.cancel()
+        self.__drop_connection()
 
     # --------------------------------------------------------------------------------
     async def __check_connected(self):
+        if self.__connected and (self.__reader.at_eof() or self.__writer.is_closing()): # Closed by the server.
+            self.__drop_connection()
         if not self.__connected:
             self.__reader, self.__writer = await self.open_connection()
             self.__connected = True
 
     # --------------------------------------------------------------------------------
-    async def __do_write(self, data: bytes):
-        async with self.__write_lock:
-            self.__writer.write(data)
-
-    # --------------------------------------------------------------------------------
-    async def __do_read(self) -> bytes:
-        async with self.__read_lock:
-            return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+    # Everyone using the connection takes turns: write a request, then read its response.
+    # When that fails part of the way, the response can still arrive later, so the
+    # connection may not be used again.
+    async def __do_exchange(self, data: bytes) -> bytes:
+        async with self.__exchange_lock:
+            try:
+                async with asyncio.timeout(self.__timeout): # There needs to be a timeout here.
+                    await self.__check_connected()
+                    self.__writer.write(data)
+                    response = await self.__reader.readline()
+                    if not response or response[-1] != self.__LF_byte:
+                        raise CommunicationsEmptyResponse()
+                    self.__last_send = time.time()
+                    return response
+            except BaseException:
+                self.__drop_connection()
+                raise
 
     # --------------------------------------------------------------------------------
     async def __do_heartbeat(self):
         try:
-            await self.__check_connected() # check if we did connect in the past
-        except ConnectionRefusedError as e:
-            return
-
-        await self.__do_write(self.__ENQ_request)
-
-        data = await self.__do_read()
-
-        if (
-            not data or
-            data[-1] != self.__LF_byte or
-            data[0]  != self.__ACK_byte
-        ):
-            self.__connected = False
-        else:
-            self.__last_send = time.time()
+            data = await self.__do_exchange(self.__ENQ_request)
+            if data[0] != self.__ACK_byte:
+                self.__drop_connection()
+        except Exception as e: # The connection is down, the next exchange will re-connect.
+            log.info(f"Heartbeat failed: {type(e)}: {str(e)}")
 
     # --------------------------------------------------------------------------------
     async def __heartbeat_check(self):
@@ -102,21 +108,8 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        try:
-            await self.__check_connected()
-        except ConnectionRefusedError as e:
-            raise e
-
-        await self.__do_write(request.encode())
-
-        data = await self.__do_read()
-        if not data or data[-1] != self.__LF_byte:
-            self.__connected = False
-            raise CommunicationsEmptyResponse()
-
-        self.__last_send = time.time()
-        response_str = data.decode()
-        return response_str
+        data = await self.__do_exchange(request.encode())
+        return data.decode()
 
     # --------------------------------------------------------------------------------
     async def __do_retry_logic(self, retry_count: int):
@@ -135,16 +128,14 @@ class PersistentStreamClientBase(ClientBase, ABC):
         while True:
             try:
                 return await self._send_message(request)
-            except (TimeoutError, asyncio.TimeoutError):
-                retry_count = await self.__do_retry_logic(retry_count)
             except (
-                ConnectionResetError,   # These are retryable exceptions.
-                ConnectionAbortedError, # But they mean the connection is broken.
-                BrokenPipeError,        # So we have to re-connect.
+                TimeoutError,           # These are retryable exceptions.
+                asyncio.TimeoutError,   # But they mean the connection is broken,
+                ConnectionResetError,   # or no longer in step with our requests.
+                ConnectionAbortedError, # So the retry will re-connect.
+                BrokenPipeError,
                 CommunicationsEmptyResponse
             ):
-                self.__connected = False
-                await self.__check_connected()
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
-- 
2.43.0


From a8ee8905dd4df7294c2d9612207217879837c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:29 +0000
Subject: [PATCH 19/52] fix: a UDP client takes only the datagram that answers
 its request

---
 ekosis/clients/datagram_client_base.py | 45 +++++++++++++++++++-------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index c1a2b69..ccd0bbf 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -1,8 +1,11 @@
+import json
 import asyncio
 import logging
 
 from .client_base import ClientBase
 
+from ..data_transfer_objects import SpanKey
+
 from ..exceptions import (
     CommunicationsNonRetryable,
     CommunicationsMaxRetriesReached,
@@ -15,22 +18,35 @@ class DatagramProtocolClient(asyncio.DatagramProtocol):
     def __init__(self, timeout: float):
         self.timeout  : float                     = timeout
         self.response : asyncio.Future            = None
+        self.span_key : SpanKey                   = None
         self.transport: asyncio.DatagramTransport = None
 
     # --------------------------------------------------------------------------------
     def connection_made(self, transport):
         self.transport = transport
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __span_key_of(message: str) -> SpanKey:
+        return SpanKey(**json.loads(message)["span_key"])
+
     # --------------------------------------------------------------------------------
     def datagram_received(self, data: bytes, address: tuple[str, int]) -> None:
-        if self.response:
-            self.response.set_result(data.decode())
-            self.response = None
+        if self.response is None or self.response.done():
+            return
+        try:
+            message = data.decode()
+            if self.__span_key_of(message) != self.span_key: # A late or duplicated response to an earlier request.
+                return
+        except (ValueError, TypeError, KeyError):
+            return
+        self.response.set_result(message)
 
     # --------------------------------------------------------------------------------
     async def send_message(self, message: str):
         if self.transport is not None:
             self.response = asyncio.Future()
+            self.span_key = self.__span_key_of(message)
             self.transport.sendto(message.encode())
             return await asyncio.wait_for(self.response, timeout=self.timeout)
         else:
@@ -58,16 +74,21 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, message: str) -> str:
-        if not self.initialised:
-            self.loop            = asyncio.get_running_loop()
-            self.transport, self.protocol = await self.loop.create_datagram_endpoint(
-                lambda: DatagramProtocolClient(self.timeout),
-                remote_addr=(self.server_host, self.server_port)
-            )
-            self.initialised = True
-
         async with self.send_lock:
-            return await self.protocol.send_message(message)
+            if not self.initialised:
+                self.loop            = asyncio.get_running_loop()
+                self.transport, self.protocol = await self.loop.create_datagram_endpoint(
+                    lambda: DatagramProtocolClient(self.timeout),
+                    remote_addr=(self.server_host, self.server_port)
+                )
+                self.initialised = True
+
+            try:
+                return await self.protocol.send_message(message)
+            except BaseException: # The response could still arrive, so this endpoint may not be used again.
+                self.initialised = False
+                self.transport.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From 8cc80e369769f370f7f77a5eca7b797e0a5b27c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:24 +0000
Subject: [PATCH 20/52] fix: a request that is not UTF-8, or whose response can
 not be serialised, is answered

---
 ekosis/servers/json/udp.py           | 10 ++--------
 ekosis/servers/server_base.py        | 22 ++++++++++++++++++++++
 ekosis/servers/stream_server_base.py |  4 ++--
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 9e894f5..a676276 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -36,8 +36,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                request_data: str = bytes_read.decode()
-                self.loop.create_task(self.do_response(request_data, addr))
+                self.loop.create_task(self.do_response(bytes_read, addr))
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
@@ -64,17 +63,12 @@ class UDPServer(ServerBase):
             self._running = False
             self._logger.info(f"Stopping UDP server for {self.host}:{self.port}.")
 
-    # --------------------------------------------------------------------------------
-    async def __process_received_data(self, received_data: str):
-        response_dict = await self._route_request(received_data)
-        return response_dict.model_dump_json()
-
     # --------------------------------------------------------------------------------
     async def __create_datagram_listener(self):
         self._logger.info(f"Serving UDP on [{self.host}:{self.port}]")
         self.__loop = asyncio.get_running_loop()
         self.__transport, protocol = await self.__loop.create_datagram_endpoint(
-            lambda: DatagramProtocolServer(self.__process_received_data),
+            lambda: DatagramProtocolServer(self._respond),
             local_addr=(self.host, self.port)
         )
 
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 70e715b..64c71e1 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -28,6 +28,28 @@ class ServerBase:
     def get_transport_type(self) -> str:
         return self._transport_type
 
+    # --------------------------------------------------------------------------------
+    # Every request gets a response, also when the request is not text, or the response
+    # of the handler can not be turned into text.
+    async def _respond(self, request_bytes: bytes) -> str:
+        try:
+            request_text = request_bytes.decode()
+        except UnicodeDecodeError as e:
+            return ResponseDTO(
+                status = Status.PROTOCOL_PARSING_ERROR.value,
+                data   = str(e)
+            ).model_dump_json()
+
+        response = await self._route_request(request_text)
+        try:
+            return response.model_dump_json()
+        except Exception as e:
+            return ResponseDTO(
+                span_key = response.span_key,
+                status   = Status.UNHANDLED.value,
+                data     = str(e)
+            ).model_dump_json()
+
     # --------------------------------------------------------------------------------
     async def _route_request(self, request_text: str) -> ResponseDTO:
         span_key: SpanKey = None
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 16f2f96..36a031e 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -35,10 +35,10 @@ class StreamServerBase(ServerBase):
                 if bytes_read[0] == self.__ENQ_byte: # The client is asking if we are still connected.
                     await self.__write_data(writer, self.__ACK_response)
                 else:
-                    response_dict = await self._route_request(bytes_read.decode())
+                    response = await self._respond(bytes_read)
                     await self.__write_data(
                         writer,
-                        (response_dict.model_dump_json() + '\n').encode()
+                        (response + '\n').encode()
                     )
             except ConnectionResetError:
                 self._logger.info("Connection reset by peer")
-- 
2.43.0


From 5904aa3b7c604ae8521673befdd0fa523286fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:24 +0000
Subject: [PATCH 21/52] fix: a slow UDP request does not hold up the requests
 of others

---
 ekosis/servers/json/udp.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index a676276..6794778 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -19,16 +19,14 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
 
         self.transport     : asyncio.DatagramTransport = None
         self.loop          : asyncio.AbstractEventLoop = None
-        self.__write_lock  : asyncio.Lock              = asyncio.Lock()
 
     def connection_made(self, transport):
         self.transport = transport
         self.loop      = asyncio.get_running_loop()
 
     async def do_response(self, message, addr):
-        async with self.__write_lock:
-            response = await self.build_response_function(message)
-            self.transport.sendto(response.encode(), addr)
+        response = await self.build_response_function(message)
+        self.transport.sendto(response.encode(), addr)
 
     # TODO: find a way to deal with partial bytes read
     def datagram_received(self, bytes_read, addr):
-- 
2.43.0


From fe325016ffeb8a0a474e423b884c13d63cef9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:24 +0000
Subject: [PATCH 22/52] fix: the UDP server answers an enquiry with an
 acknowledgement

---
 ekosis/servers/json/udp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 6794778..79382f9 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -31,7 +31,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
     # TODO: find a way to deal with partial bytes read
     def datagram_received(self, bytes_read, addr):
         if bytes_read and bytes_read[-1] == self.__LF_byte:
-            if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
+            if bytes_read[0] == self.__ENQ_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
                 self.loop.create_task(self.do_response(bytes_read, addr))
-- 
2.43.0


From 8436c5497cb73a81dc866c404caab88aad64028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 23/52] fix: current statistics do not change while they are
 being reported

---
 ekosis/state_keepers/statistics_keeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/state_keepers/statistics_keeper.py b/ekosis/state_keepers/statistics_keeper.py
index eaa5450..8f7a482 100644
--- a/ekosis/state_keepers/statistics_keeper.py
+++ b/ekosis/state_keepers/statistics_keeper.py
@@ -71,7 +71,7 @@ class StatisticsKeeper(metaclass=SingletonType):
 
     async def get_current_statistics(self) -> Dict[str, Any]:
         await self.__update_current_statistics()
-        return self.__statistics_current
+        return copy.deepcopy(self.__statistics_current) # It can be reset, before the caller is done with it.
 
     async def get_last_gathered_statistics(self) -> Dict[str, Any]:
         if len(self.__statistics_history) > 0:
-- 
2.43.0


From 4c6feafa0c88aff21c04c17c63b867a1328d819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 24/52] fix: p95 and p99 are never longer than the longest call

---
 ekosis/state_keepers/statistics_keeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/state_keepers/statistics_keeper.py b/ekosis/state_keepers/statistics_keeper.py
index 8f7a482..c5162c2 100644
--- a/ekosis/state_keepers/statistics_keeper.py
+++ b/ekosis/state_keepers/statistics_keeper.py
@@ -37,7 +37,7 @@ class StatisticsKeeper(metaclass=SingletonType):
         for key, duration_list in self.__endpoint_durations.items():
             if len(duration_list) >= 2:
                 sorted_durations = sorted(duration_list)
-                quantiles        = statistics.quantiles(sorted_durations, n=100)
+                quantiles        = statistics.quantiles(sorted_durations, n=100, method='inclusive')
                 p95              = quantiles[94]
                 p99              = quantiles[98]
                 retval[key]      = (p95, p99)
-- 
2.43.0


From 68bc30baed45e71cc524d4b7e3d0b42a7d303447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:00 +0000
Subject: [PATCH 25/52] fix: failing to read the size of a queue for the
 statistics does not end the application

---
 ekosis/state_keepers/statistics_keeper.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ekosis/state_keepers/statistics_keeper.py b/ekosis/state_keepers/statistics_keeper.py
index c5162c2..350d1a1 100644
--- a/ekosis/state_keepers/statistics_keeper.py
+++ b/ekosis/state_keepers/statistics_keeper.py
@@ -158,9 +158,15 @@ class StatisticsKeeper(metaclass=SingletonType):
                 sleep_count += 1
 
             if self.__running:
-                self.__logger.info(f"Gathering statistics")
-                await self.__update_current_statistics()
-                self.__statistics_history.insert(0, copy.deepcopy(self.__statistics_current))
-                if len(self.__statistics_history) > self.__history_length:
-                    self.__statistics_history.pop()
-                await self.__reset_current_statistics()
+                try:
+                    await self.__gather()
+                except Exception as e: # What was counted stays, and is part of the next period.
+                    self.__logger.error(f"Gathering statistics failed: {type(e).__name__}: {e}")
+
+    async def __gather(self):
+        self.__logger.info(f"Gathering statistics")
+        await self.__update_current_statistics()
+        self.__statistics_history.insert(0, copy.deepcopy(self.__statistics_current))
+        if len(self.__statistics_history) > self.__history_length:
+            self.__statistics_history.pop()
+        await self.__reset_current_statistics()
-- 
2.43.0


From c162553f248e76b25792c52913923fe18638909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:29 +0000
Subject: [PATCH 26/52] fix: a buffered log record keeps its own message, trace
 id and span id

---
 ekosis/logs/buffered_rotating_file_handler.py | 17 +++++++++++++++++
 ekosis/logs/otlp_formatter.py                 |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index c9073ef..abe1601 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -1,5 +1,9 @@
+import copy
+
 from logging.handlers import RotatingFileHandler, BufferingHandler
 
+from ..requests.request_context import _get_current_span_key
+
 # --------------------------------------------------------------------------------
 class BufferedRotatingFileHandler(BufferingHandler):
     def __init__(
@@ -30,6 +34,19 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def setFormatter(self, formatter):
         self.rotating_file_handler.setFormatter(formatter)
 
+    # What a record says, and which request it belongs to, has to be established now.
+    # By the time the buffer is flushed, another request is being handled.
+    def emit(self, record):
+        try:
+            record          = copy.copy(record)
+            record.msg      = record.getMessage()
+            record.args     = None
+            record.eco_span_key = _get_current_span_key()
+        except Exception:
+            self.handleError(record)
+            return
+        super().emit(record)
+
     def flush(self):
         for record in self.buffer:
             self.rotating_file_handler.emit(record)
diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index dea5e83..2161590 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -9,7 +9,7 @@ from ..requests.request_context import _get_current_span_key
 class OtlpFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
         severity_number, severity_text = severity_for_levelno(record.levelno)
-        span_key                       = _get_current_span_key()
+        span_key                       = record.eco_span_key if hasattr(record, "eco_span_key") else _get_current_span_key()
         app_config                     = AppConfiguration()
 
         log_record = OtlpLogRecord(
-- 
2.43.0


From abd6ab837fb277713cea8b0703c3c0b1a4db37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:29 +0000
Subject: [PATCH 27/52] fix: a log message with lone surrogates is logged

---
 ekosis/logs/otlp_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index 2161590..0211f53 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -16,7 +16,7 @@ class OtlpFormatter(logging.Formatter):
             timestamp       = datetime.datetime.fromtimestamp(record.created, tz=datetime.timezone.utc).isoformat(),
             severity_number = severity_number,
             severity_text   = severity_text,
-            body            = record.getMessage(),
+            body            = record.getMessage().encode("utf-8", "backslashreplace").decode(), # Not all of str is valid UTF-8.
             attributes      = {
                 # application_name/instance properly belong on the OTLP
                 # Resource (one per file, set from the shipper's own config
-- 
2.43.0


From d7b7bd5457107f6c7279af54aad02ae13d87c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:59 +0000
Subject: [PATCH 28/52] fix: logging of background tasks does not carry the ids
 of the request that happened to start them

---
 ekosis/clients/persistent_stream_client_base.py | 3 +++
 ekosis/requests/buffered_handler_base.py        | 1 +
 ekosis/sending/buffered_sender_base.py          | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 1a68705..605c34d 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -7,6 +7,8 @@ from typing import Tuple
 
 from .client_base import ClientBase
 
+from ..requests.request_context import _set_current_span_key
+
 from ..exceptions import (
     CommunicationsNonRetryable,
     CommunicationsMaxRetriesReached,
@@ -94,6 +96,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def __heartbeat_check(self):
+        _set_current_span_key(None) # This task is started by a request, but not a part of handling it.
         while True:
             last_acceptable_send_time = time.time() - self.__heartbeat_time
             if self.__last_send < last_acceptable_send_time:
diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 9d7ac3c..edc0ef3 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -227,6 +227,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _process_queue(self):
+        _set_current_span_key(None) # This task is started by a request, but not a part of handling it.
         try:
             self.running = True
             await self.__do_queue_processing()
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 3bdc744..0492bc4 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -9,6 +9,7 @@ from .sender_base import SenderBase
 from ..clients import ClientBase
 from ..data_transfer_objects import EmptyDto, SpanKey
 from ..queues.pending_queue import PendingQueue
+from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..state_keepers.statistics_keeper import StatisticsKeeper
 from ..exceptions import ServerBusyException, CommunicationsMaxRetriesReached
 
@@ -91,6 +92,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
             span_key      = buffered_item.span_key
             request_data  = buffered_item.data
             retries       = buffered_item.retries
+            token         = _set_current_span_key(span_key)
             try:
                 request_data = self._request_dto_type(**buffered_item.data)
                 if self.wait_period > 0:
@@ -107,9 +109,12 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                 raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
+            finally:
+                _reset_current_span_key(token)
 
     # --------------------------------------------------------------------------------
     async def __process_send_queue(self) -> None:
+        _set_current_span_key(None) # This task is started by a request, but not a part of handling it.
         try:
             self.running = True
             await self.__do_queue_processing()
-- 
2.43.0


From db9069cd714cf07863b70193bdd5ac670d1f8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:51 +0000
Subject: [PATCH 29/52] fix: a malformed log line, a file that is gone again or
 a failing state database does not end the log shipper

---
 ekosis_log_shipper/src/main.cpp          | 38 ++++++++++++++++++------
 ekosis_log_shipper/src/otlp_envelope.cpp | 11 +++++++
 ekosis_log_shipper/src/otlp_envelope.hpp |  4 +++
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 6d0b7bd..7ecb80e 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -8,6 +8,7 @@
 #include <sys/select.h>
 #include <unistd.h>
 
+#include <exception>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -39,6 +40,17 @@ std::vector<std::string> list_log_files(const std::string& directory) {
     return result;
 }
 
+std::vector<std::string> only_log_records(const std::string& path, std::vector<std::string> lines) {
+    std::erase_if(lines, [&](const std::string& line) {
+        bool malformed = !is_log_record(line);
+        if (malformed) {
+            std::cerr << "ekosis_log_shipper: skipping malformed line in " << path << "\n";
+        }
+        return malformed;
+    });
+    return lines;
+}
+
 struct WatchedFile {
     std::unique_ptr<TrackedFile> tracked;
     std::vector<std::string>     undelivered; // polled but not yet successfully shipped
@@ -67,13 +79,17 @@ int main(int argc, char** argv) {
         if (watched.count(path)) {
             return;
         }
-        auto         resume = state_store.load(path);
-        WatchedFile  wf;
-        wf.tracked = resume
-            ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
-            : std::make_unique<TrackedFile>(path);
-        watched.emplace(path, std::move(wf));
-        std::cout << "ekosis_log_shipper: watching " << path << "\n";
+        try {
+            auto         resume = state_store.load(path);
+            WatchedFile  wf;
+            wf.tracked = resume
+                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
+                : std::make_unique<TrackedFile>(path);
+            watched.emplace(path, std::move(wf));
+            std::cout << "ekosis_log_shipper: watching " << path << "\n";
+        } catch (const std::exception& e) { // e.g. gone already -- the next scan tries again, if it is still there
+            std::cerr << "ekosis_log_shipper: not watching " << path << ": " << e.what() << "\n";
+        }
     };
 
     for (const auto& path : list_log_files(watch_directory)) {
@@ -101,7 +117,7 @@ int main(int argc, char** argv) {
 
         for (auto& [path, wf] : watched) {
             if (wf.undelivered.empty()) {
-                wf.undelivered = wf.tracked->poll();
+                wf.undelivered = only_log_records(path, wf.tracked->poll());
             }
             if (wf.undelivered.empty()) {
                 continue;
@@ -112,8 +128,12 @@ int main(int argc, char** argv) {
 
             PostResult result = http_sender.post_json(payload);
             if (result.success) {
-                state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
                 wf.undelivered.clear();
+                try {
+                    state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
+                } catch (const std::exception& e) { // the next save makes up for it
+                    std::cerr << "ekosis_log_shipper: unable to save the position in " << path << ": " << e.what() << "\n";
+                }
             } else {
                 std::cerr << "ekosis_log_shipper: POST failed for " << path
                            << " [" << result.http_status << "] " << result.response_body
diff --git a/ekosis_log_shipper/src/otlp_envelope.cpp b/ekosis_log_shipper/src/otlp_envelope.cpp
index ad5b0f0..7137640 100644
--- a/ekosis_log_shipper/src/otlp_envelope.cpp
+++ b/ekosis_log_shipper/src/otlp_envelope.cpp
@@ -71,6 +71,17 @@ json convert_one_record(const json& record) {
 
 } // namespace
 
+// --------------------------------------------------------------------------------
+bool is_log_record(const std::string& json_line) {
+    try {
+        convert_one_record(json::parse(json_line));
+        extract_resource_info(json_line);
+        return true;
+    } catch (const json::exception&) {
+        return false;
+    }
+}
+
 // --------------------------------------------------------------------------------
 ResourceInfo extract_resource_info(const std::string& json_line) {
     json         record = json::parse(json_line);
diff --git a/ekosis_log_shipper/src/otlp_envelope.hpp b/ekosis_log_shipper/src/otlp_envelope.hpp
index 7d9db8a..64e4238 100644
--- a/ekosis_log_shipper/src/otlp_envelope.hpp
+++ b/ekosis_log_shipper/src/otlp_envelope.hpp
@@ -11,6 +11,10 @@ struct ResourceInfo {
     std::string service_instance_id;
 };
 
+// A line that isn't a complete OtlpLogRecord (cut off by a crash of its writer, or
+// written by something else) can't be shipped. False for those.
+bool is_log_record(const std::string& json_line);
+
 // application_name/application_instance already ride in every ekosis log
 // line's attributes (OtlpFormatter put them there for the no-observability
 // -stack human reading the raw file). Pull the Resource identity from there
-- 
2.43.0


From 631dd6d001f452bd77253ed4815cf0c15463e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:01 +0000
Subject: [PATCH 30/52] fix: the log shipper ships every file of a series of
 rotations, also those that happened while it was not running

---
 ekosis_log_shipper/src/tracked_file.cpp | 158 ++++++++++++++++++++++--
 ekosis_log_shipper/src/tracked_file.hpp |  16 ++-
 2 files changed, 162 insertions(+), 12 deletions(-)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 2908b23..46b6065 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -3,6 +3,8 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/stat.h>
+#include <algorithm>
+#include <cerrno>
 #include <stdexcept>
 
 // --------------------------------------------------------------------------------
@@ -19,8 +21,8 @@ TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resum
     struct stat path_stat{};
     if (::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) == resume_inode) {
         open_at_path(resume_offset); // same file we left off on -- resume exactly where we stopped
-    } else {
-        open_at_path(0); // rotated while we were away -- start the current file from the top
+    } else if (!open_rotated(resume_inode, resume_offset)) { // rotated while we were away -- finish that file first
+        throw std::runtime_error("TrackedFile: unable to resume '" + _path + "'");
     }
 }
 
@@ -55,7 +57,147 @@ void TrackedFile::open_at_path(uint64_t start_offset) {
 }
 
 // --------------------------------------------------------------------------------
-void TrackedFile::read_available_lines(std::vector<std::string>& lines) {
+void TrackedFile::switch_to(const OpenFile& file, uint64_t start_offset) {
+    if (_fd != -1) {
+        ::close(_fd);
+    }
+    if (start_offset > 0) {
+        ::lseek(file.fd, static_cast<off_t>(start_offset), SEEK_SET);
+    }
+    _fd     = file.fd;
+    _inode  = file.inode;
+    _offset = start_offset;
+    _pending.clear();
+}
+
+// --------------------------------------------------------------------------------
+// Opens the rotated file with this inode, if it is still there, and every file
+// that came after it, oldest first: the last one is at the path. Says no if that
+// is not possible right now.
+bool TrackedFile::open_newer_files(uint64_t inode, int& own_fd, std::vector<OpenFile>& newer) {
+    own_fd = -1;
+    auto give_up = [&]() {
+        if (own_fd != -1) {
+            ::close(own_fd);
+        }
+        for (const auto& file : newer) {
+            ::close(file.fd);
+        }
+        newer.clear();
+        return false;
+    };
+
+    int fd = ::open(_path.c_str(), O_RDONLY);
+    if (fd == -1) {
+        return false;
+    }
+    struct stat file_stat{};
+    if (::fstat(fd, &file_stat) != 0) {
+        ::close(fd);
+        return false;
+    }
+    newer.push_back({fd, static_cast<uint64_t>(file_stat.st_ino)});
+
+    // While a rotation is renaming files, one number is missing.
+    for (int number = 1, missing = 0; missing < 2 && own_fd == -1; ++number) {
+        fd = ::open((_path + "." + std::to_string(number)).c_str(), O_RDONLY);
+        if (fd == -1) {
+            if (errno != ENOENT) {
+                return give_up();
+            }
+            ++missing;
+            continue;
+        }
+        if (::fstat(fd, &file_stat) != 0) {
+            ::close(fd);
+            return give_up();
+        }
+        missing           = 0;
+        auto found_inode  = static_cast<uint64_t>(file_stat.st_ino);
+        auto already_open = [&](const OpenFile& file) { return file.inode == found_inode; };
+        if (found_inode == inode) {
+            own_fd = fd;
+        } else if (std::any_of(newer.begin(), newer.end(), already_open)) {
+            ::close(fd); // one that got its next number while we were looking
+        } else {
+            newer.push_back({fd, found_inode});
+        }
+    }
+
+    // A rotation that completed while we were looking, spoils the order.
+    if (::stat(_path.c_str(), &file_stat) != 0 || static_cast<uint64_t>(file_stat.st_ino) != newer.front().inode) {
+        return give_up();
+    }
+    std::reverse(newer.begin(), newer.end());
+    return true;
+}
+
+// --------------------------------------------------------------------------------
+bool TrackedFile::open_rotated(uint64_t inode, uint64_t start_offset) {
+    for (int attempt = 0; attempt < 10; ++attempt) {
+        std::vector<OpenFile> newer;
+        int                   own_fd;
+        if (!open_newer_files(inode, own_fd, newer)) {
+            continue;
+        }
+        if (own_fd != -1) {
+            switch_to({own_fd, inode}, start_offset);
+        } else { // Deleted by now, all that is still there is newer.
+            switch_to(newer.front(), 0);
+            newer.erase(newer.begin());
+        }
+        for (const auto& file : newer) { // It is for poll() to get to these.
+            ::close(file.fd);
+        }
+        return true;
+    }
+    return false;
+}
+
+// --------------------------------------------------------------------------------
+bool TrackedFile::is_newer_than_own(int fd) {
+    struct stat own_stat{};
+    struct stat file_stat{};
+    if (::fstat(_fd, &own_stat) != 0 || ::fstat(fd, &file_stat) != 0) {
+        return true;
+    }
+    return file_stat.st_mtim.tv_sec != own_stat.st_mtim.tv_sec
+         ? file_stat.st_mtim.tv_sec  >  own_stat.st_mtim.tv_sec
+         : file_stat.st_mtim.tv_nsec >= own_stat.st_mtim.tv_nsec;
+}
+
+// --------------------------------------------------------------------------------
+void TrackedFile::follow_rotation(std::vector<std::string>& lines) {
+    std::vector<OpenFile> newer;
+    int                   own_fd;
+    if (!open_newer_files(_inode, own_fd, newer)) {
+        return; // in the middle of a rotation -- next time
+    }
+
+    // Drain whatever is still unread in the OLD file before switching. The
+    // old fd is still attached to the renamed/unlinked file regardless of
+    // its current name -- this is what makes the drain safe rather than a
+    // race against the rename.
+    bool drained = read_available_lines(lines);
+    for (size_t i = 0; i < newer.size(); ++i) {
+        bool is_current = i + 1 == newer.size();
+        // If ours has been deleted, older ones might still be there.
+        bool is_older   = own_fd == -1 && !is_current && !is_newer_than_own(newer[i].fd);
+        if (!drained || is_older) {
+            ::close(newer[i].fd);
+            continue;
+        }
+        switch_to(newer[i], 0);
+        drained = read_available_lines(lines);
+    }
+    if (own_fd != -1) {
+        ::close(own_fd);
+    }
+}
+
+// --------------------------------------------------------------------------------
+// Says no if it could not read up to the end of the file.
+bool TrackedFile::read_available_lines(std::vector<std::string>& lines) {
     char    buf[8192];
     ssize_t n;
     while ((n = ::read(_fd, buf, sizeof(buf))) > 0) {
@@ -74,6 +216,7 @@ void TrackedFile::read_available_lines(std::vector<std::string>& lines) {
 
     _offset += start;       // only count bytes belonging to complete, shipped lines
     _pending.erase(0, start);
+    return n == 0;
 }
 
 // --------------------------------------------------------------------------------
@@ -84,14 +227,7 @@ std::vector<std::string> TrackedFile::poll() {
     bool        path_exists = ::stat(_path.c_str(), &path_stat) == 0;
 
     if (path_exists && static_cast<uint64_t>(path_stat.st_ino) != _inode) {
-        // Rotation: drain whatever is still unread in the OLD file before
-        // switching. The old fd is still attached to the renamed/unlinked
-        // file regardless of its current name -- this is what makes the
-        // drain safe rather than a race against the rename.
-        read_available_lines(lines);
-        ::close(_fd);
-        _fd = -1;
-        open_at_path(0);
+        follow_rotation(lines);
     }
 
     read_available_lines(lines);
diff --git a/ekosis_log_shipper/src/tracked_file.hpp b/ekosis_log_shipper/src/tracked_file.hpp
index fce8b59..0e1b30e 100644
--- a/ekosis_log_shipper/src/tracked_file.hpp
+++ b/ekosis_log_shipper/src/tracked_file.hpp
@@ -15,6 +15,10 @@
 // gets unlinked -- so draining the OLD fd to its end before switching to a
 // freshly-opened fd at the (now-different) path is rotation-safe with no
 // path-guessing involved.
+//
+// More than one rotation can happen between two looks at a file, or while the
+// shipper is not running. The files in between are the <path>.1, <path>.2, ...
+// that RotatingFileHandler leaves behind: the lower the number, the newer.
 class TrackedFile {
 public:
     explicit TrackedFile(std::string path);
@@ -36,8 +40,18 @@ public:
     uint64_t            offset() const { return _offset; }
 
 private:
+    struct OpenFile {
+        int      fd;
+        uint64_t inode;
+    };
+
     void open_at_path(uint64_t start_offset);
-    void read_available_lines(std::vector<std::string>& lines);
+    bool open_rotated(uint64_t inode, uint64_t start_offset);
+    bool open_newer_files(uint64_t inode, int& own_fd, std::vector<OpenFile>& newer);
+    void follow_rotation(std::vector<std::string>& lines);
+    bool is_newer_than_own(int fd);
+    void switch_to(const OpenFile& file, uint64_t start_offset);
+    bool read_available_lines(std::vector<std::string>& lines);
 
     std::string _path;
     int         _fd     = -1;
-- 
2.43.0


From 6098579063cbe990382395bc86522a5951487ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:01 +0000
Subject: [PATCH 31/52] fix: the log shipper knows a file it had not shipped
 anything of when it was stopped

---
 ekosis_log_shipper/src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 7ecb80e..d42bb5e 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -85,6 +85,9 @@ int main(int argc, char** argv) {
             wf.tracked = resume
                 ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
                 : std::make_unique<TrackedFile>(path);
+            if (!resume) { // so that it is known which file this was, if it is rotated while we are away
+                state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
+            }
             watched.emplace(path, std::move(wf));
             std::cout << "ekosis_log_shipper: watching " << path << "\n";
         } catch (const std::exception& e) { // e.g. gone already -- the next scan tries again, if it is still there
-- 
2.43.0


From 674723c15b1bc99eb198cd2f98f95f148103bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:41 +0000
Subject: [PATCH 32/52] fix: a log file rotated at the moment the log shipper
 resumes it is shipped from its start

---
 ekosis_log_shipper/src/tracked_file.cpp | 32 ++++++++++++-------------
 ekosis_log_shipper/src/tracked_file.hpp |  3 ++-
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 46b6065..467252c 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -11,17 +11,18 @@
 TrackedFile::TrackedFile(std::string path)
     : _path(std::move(path))
 {
-    open_at_path(0);
+    open_at_path();
 }
 
 // --------------------------------------------------------------------------------
 TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset)
     : _path(std::move(path))
 {
-    struct stat path_stat{};
-    if (::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) == resume_inode) {
-        open_at_path(resume_offset); // same file we left off on -- resume exactly where we stopped
+    open_at_path();
+    if (_inode == resume_inode) {
+        seek_to(resume_offset); // same file we left off on -- resume exactly where we stopped
     } else if (!open_rotated(resume_inode, resume_offset)) { // rotated while we were away -- finish that file first
+        ::close(_fd);
         throw std::runtime_error("TrackedFile: unable to resume '" + _path + "'");
     }
 }
@@ -34,7 +35,7 @@ TrackedFile::~TrackedFile() {
 }
 
 // --------------------------------------------------------------------------------
-void TrackedFile::open_at_path(uint64_t start_offset) {
+void TrackedFile::open_at_path() {
     _fd = ::open(_path.c_str(), O_RDONLY);
     if (_fd == -1) {
         throw std::runtime_error("TrackedFile: unable to open '" + _path + "'");
@@ -47,12 +48,13 @@ void TrackedFile::open_at_path(uint64_t start_offset) {
         throw std::runtime_error("TrackedFile: unable to fstat '" + _path + "'");
     }
 
-    if (start_offset > 0) {
-        ::lseek(_fd, static_cast<off_t>(start_offset), SEEK_SET);
-    }
+    _inode = static_cast<uint64_t>(file_stat.st_ino);
+}
 
-    _inode   = static_cast<uint64_t>(file_stat.st_ino);
-    _offset  = start_offset;
+// --------------------------------------------------------------------------------
+void TrackedFile::seek_to(uint64_t offset) {
+    ::lseek(_fd, static_cast<off_t>(offset), SEEK_SET);
+    _offset = offset;
     _pending.clear();
 }
 
@@ -61,13 +63,9 @@ void TrackedFile::switch_to(const OpenFile& file, uint64_t start_offset) {
     if (_fd != -1) {
         ::close(_fd);
     }
-    if (start_offset > 0) {
-        ::lseek(file.fd, static_cast<off_t>(start_offset), SEEK_SET);
-    }
-    _fd     = file.fd;
-    _inode  = file.inode;
-    _offset = start_offset;
-    _pending.clear();
+    _fd    = file.fd;
+    _inode = file.inode;
+    seek_to(start_offset);
 }
 
 // --------------------------------------------------------------------------------
diff --git a/ekosis_log_shipper/src/tracked_file.hpp b/ekosis_log_shipper/src/tracked_file.hpp
index 0e1b30e..9ef0ebe 100644
--- a/ekosis_log_shipper/src/tracked_file.hpp
+++ b/ekosis_log_shipper/src/tracked_file.hpp
@@ -45,7 +45,8 @@ private:
         uint64_t inode;
     };
 
-    void open_at_path(uint64_t start_offset);
+    void open_at_path();
+    void seek_to(uint64_t offset);
     bool open_rotated(uint64_t inode, uint64_t start_offset);
     bool open_newer_files(uint64_t inode, int& own_fd, std::vector<OpenFile>& newer);
     void follow_rotation(std::vector<std::string>& lines);
-- 
2.43.0


From 5311378c940970c6f3b9c18637f58e2ad034dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:52 +0000
Subject: [PATCH 33/52] fix: the log shipper starts over with a log file that
 was cut short

---
 ekosis_log_shipper/src/tracked_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 467252c..8584d37 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -226,6 +226,8 @@ std::vector<std::string> TrackedFile::poll() {
 
     if (path_exists && static_cast<uint64_t>(path_stat.st_ino) != _inode) {
         follow_rotation(lines);
+    } else if (path_exists && static_cast<uint64_t>(path_stat.st_size) < _offset + _pending.size()) {
+        seek_to(0); // cut short in place -- what it has now is new
     }
 
     read_available_lines(lines);
-- 
2.43.0


From 52ef4e6c752e241e24981cd305962fc77d141dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:29 +0000
Subject: [PATCH 34/52] fix: the log shipper watches a new file also when its
 position can not be saved yet

---
 ekosis_log_shipper/src/main.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index d42bb5e..896d1df 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -75,6 +75,14 @@ int main(int argc, char** argv) {
 
     std::map<std::string, WatchedFile> watched;
 
+    auto save_position = [&](const std::string& path, const WatchedFile& wf) {
+        try {
+            state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
+        } catch (const std::exception& e) { // the next save makes up for it
+            std::cerr << "ekosis_log_shipper: unable to save the position in " << path << ": " << e.what() << "\n";
+        }
+    };
+
     auto attach = [&](const std::string& path) {
         if (watched.count(path)) {
             return;
@@ -86,7 +94,7 @@ int main(int argc, char** argv) {
                 ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
                 : std::make_unique<TrackedFile>(path);
             if (!resume) { // so that it is known which file this was, if it is rotated while we are away
-                state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
+                save_position(path, wf);
             }
             watched.emplace(path, std::move(wf));
             std::cout << "ekosis_log_shipper: watching " << path << "\n";
@@ -132,11 +140,7 @@ int main(int argc, char** argv) {
             PostResult result = http_sender.post_json(payload);
             if (result.success) {
                 wf.undelivered.clear();
-                try {
-                    state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
-                } catch (const std::exception& e) { // the next save makes up for it
-                    std::cerr << "ekosis_log_shipper: unable to save the position in " << path << ": " << e.what() << "\n";
-                }
+                save_position(path, wf);
             } else {
                 std::cerr << "ekosis_log_shipper: POST failed for " << path
                            << " [" << result.http_status << "] " << result.response_body
-- 
2.43.0


From 2481ed5492f94f461bc90620ea5595aab9375423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:04 +0000
Subject: [PATCH 35/52] fix: an instance is locked by the operating system, not
 by a process id in a file

---
 ekosis/application_base.py | 43 +++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 17e01ed..d870854 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -4,6 +4,8 @@ import signal
 import argparse
 import logging
 
+from typing import TextIO
+
 from .logs import EcoLogger
 from .configuration.config_models import AppConfiguration
 
@@ -60,7 +62,7 @@ class InstanceAlreadyRunningException(ExceptionBase):
         self,
         application_name: str,
         instance_id     : str,
-        process_id      : int
+        process_id      : str
     ):
         super().__init__(f"Instance [{instance_id}] of [{application_name}] already running with process id [{process_id}]!")
 
@@ -84,6 +86,7 @@ class ApplicationBase(metaclass=SingletonType):
     __server_tcp          : TCPServer               = None
     __server_udp          : UDPServer               = None
     __server_uds          : UDSServer               = None
+    __lock_file           : TextIO                  = None
 
     # --------------------------------------------------------------------------------
     def __init__(self):
@@ -139,33 +142,25 @@ class ApplicationBase(metaclass=SingletonType):
         self.logger.info(f"Instance [{self._configuration.instance}] of application [{self._configuration.name}] shutdown.")
         self.__eco_logger.flush()
 
-    # --------------------------------------------------------------------------------
-    @staticmethod
-    def __process_id_check(process_id: int) -> bool:
-        try:
-            os.kill(process_id, 0)
-        except OSError:
-            return False
-        return True
-
-    # --------------------------------------------------------------------------------
-    @staticmethod
-    def __create_lock_file(lock_file_path: str):
-        process_id = os.getpid()
-        with open(lock_file_path, "w") as lock_file:
-            lock_file.write(f"{process_id}\n")
-
+    # The process id in the lock file is for people to read. What counts is the lock the
+    # operating system has on it: that is gone when this process is, however it ends.
     # --------------------------------------------------------------------------------
     def __lock_file_check(self):
+        import fcntl # not on all platforms
         lock_file_name  = f"{self._configuration.name}-{self._configuration.instance}.lock"
         lock_file_path  = f"{self._configuration.lock_directory}/{lock_file_name}"
-        if os.path.exists(lock_file_path):
-            with open(lock_file_path, "r") as lock_file:
-                process_id = int(lock_file.readline())
-            if self.__process_id_check(process_id):
-                raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
-            os.remove(lock_file_path)
-        self.__create_lock_file(lock_file_path)
+        lock_file       = open(lock_file_path, "a+")
+        try:
+            fcntl.lockf(lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        except (BlockingIOError, PermissionError): # which of them depends on the platform
+            lock_file.seek(0)
+            process_id = lock_file.readline().strip()
+            lock_file.close()
+            raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
+        lock_file.truncate(0)
+        lock_file.write(f"{os.getpid()}\n")
+        lock_file.flush()
+        self.__lock_file = lock_file # closing it ends the lock
 
     # --------------------------------------------------------------------------------
     def __configure_basics(self) -> None:
-- 
2.43.0


From 0a32ed45502056f371b01a756fce2b763bcdb0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:29 +0000
Subject: [PATCH 36/52] fix: names of custom statistics that differ only in
 characters not valid in a metric name do not spoil the push of all targets

---
 ekosis_prometheus/ekosis_prometheus/stats_translator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/stats_translator.py b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
index 9af7e92..d695f18 100644
--- a/ekosis_prometheus/ekosis_prometheus/stats_translator.py
+++ b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
@@ -1,3 +1,5 @@
+import re
+
 from typing import Any, Dict, Generator, Optional, Set, Tuple
 
 
@@ -130,4 +132,5 @@ def translate_gathered_stats(
         if key in known_keys:
             continue
         for metric_suffix, metric_val in _flatten(val, key):
-            yield f"ekosis_custom_{metric_suffix}", metric_val, labels
+            # What is not valid in a name becomes the same as other names here, rather than when it is pushed
+            yield re.sub("[^a-zA-Z0-9_:]", "_", f"ekosis_custom_{metric_suffix}"), metric_val, labels
-- 
2.43.0


From 3f395fc68708f38986e803c9ac4c8df228fecb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:33 +0000
Subject: [PATCH 37/52] fix: a service that reports text that can not be
 encoded does not keep the metrics of others from being pushed

---
 ekosis_prometheus/ekosis_prometheus/scraper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis_prometheus/ekosis_prometheus/scraper.py b/ekosis_prometheus/ekosis_prometheus/scraper.py
index 568bcc7..b0adbba 100644
--- a/ekosis_prometheus/ekosis_prometheus/scraper.py
+++ b/ekosis_prometheus/ekosis_prometheus/scraper.py
@@ -1,4 +1,5 @@
 import asyncio
+import json
 import logging
 
 from typing                             import Dict, List, Optional
@@ -99,6 +100,7 @@ class EkosisPrometheusScraper:
             try:
                 response     = await target.sender.get_gathered()
                 stats        = response.statistics
+                json.dumps(stats, ensure_ascii=False).encode() # Text that can not be encoded, would keep us from pushing anything
                 target.healthy = True
 
                 # Use identity from the stats response -- more authoritative than service discovery.
-- 
2.43.0


From e65ef0269fad054def4a674345fce89b7d546c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:36 +0000
Subject: [PATCH 38/52] fix: the health of a service that does not answer is
 published under the instance it reports itself as

---
 ekosis_prometheus/ekosis_prometheus/scraper.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/scraper.py b/ekosis_prometheus/ekosis_prometheus/scraper.py
index b0adbba..a6427f8 100644
--- a/ekosis_prometheus/ekosis_prometheus/scraper.py
+++ b/ekosis_prometheus/ekosis_prometheus/scraper.py
@@ -60,6 +60,8 @@ class _ServiceScrapeTarget:
         self.client  = _make_client(service)
         self.sender  = _StatsSender(self.client) if self.client else None
         self.healthy = False
+        self.name     = service.name     # The service's own idea of these,
+        self.instance = service.instance # once it has told us.
 
 
 # --------------------------------------------------------------------------------
@@ -104,10 +106,10 @@ class EkosisPrometheusScraper:
                 target.healthy = True
 
                 # Use identity from the stats response -- more authoritative than service discovery.
-                # Falls back to discovery values if the application block is absent.
+                # Falls back to what it reported before, or discovery values, if the application block is absent.
                 app      = stats.get("application", {})
-                svc_name = app.get("name",     target.service.name)
-                svc_inst = app.get("instance", target.service.instance)
+                svc_name = target.name     = app.get("name",     target.name)
+                svc_inst = target.instance = app.get("instance", target.instance)
                 health_gauge.labels(service=svc_name, instance=svc_inst).set(1)
 
                 for metric_name, value, labels in translate_gathered_stats(stats, svc_name, svc_inst):
@@ -118,7 +120,7 @@ class EkosisPrometheusScraper:
 
             except Exception as e:
                 target.healthy = False
-                health_gauge.labels(service=target.service.name, instance=target.service.instance).set(0)
+                health_gauge.labels(service=target.name, instance=target.instance).set(0)
                 log.warning(f"Failed to scrape [{target.key}]: {e}")
 
         try:
-- 
2.43.0


From 54186576d724d87b9751ea8e7d856667b0a779e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:53 +0000
Subject: [PATCH 39/52] fix: the tracing setup helper can be imported from the
 installed package

---
 ekosis_otlp_traces/ekosis_otlp_traces/setup.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
index 701984e..d53f09a 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
@@ -1,8 +1,9 @@
-from ekosis.configuration.config_models                          import AppConfiguration
-from ekosis.middleware.manager                                   import MiddlewareManager
-from ekosis.middleware.buffered_middleware_manager               import BufferedMiddlewareManager
-from ekosis_otlp_traces.ekosis_otlp_traces.middleware            import OtlpTracingMiddleware
-from ekosis_otlp_traces.ekosis_otlp_traces.buffered_middleware   import OtlpBufferedTracingMiddleware
+from ekosis.configuration.config_models            import AppConfiguration
+from ekosis.middleware.manager                     import MiddlewareManager
+from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
+
+from .middleware                                   import OtlpTracingMiddleware
+from .buffered_middleware                          import OtlpBufferedTracingMiddleware
 
 # --------------------------------------------------------------------------------
 def initiate_otlp_tracing():
-- 
2.43.0


From 407abfa308460f83fc844529e0c87f84780eb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:33 +0000
Subject: [PATCH 40/52] fix: spans of requests and attempts with the same span
 key do not replace each other

---
 .../ekosis_otlp_traces/buffered_middleware.py      | 13 +++++++++----
 .../ekosis_otlp_traces/middleware.py               | 14 ++++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
index 0d6701e..95255ec 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
@@ -1,3 +1,5 @@
+from contextvars         import ContextVar
+
 from opentelemetry       import trace
 from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags
 from pydantic            import BaseModel as PydanticBaseModel
@@ -12,8 +14,10 @@ _RECEIVE_SPAN_ID_KEY = "otlp_receive_span_id"
 # --------------------------------------------------------------------------------
 class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
     def __init__(self, tracing_middleware: OtlpTracingMiddleware):
-        self._tracing       = tracing_middleware
-        self._process_spans = {}
+        self._tracing      = tracing_middleware
+        # Per asyncio Task, and not per span_key: The same span_key can be in process on
+        # more than one buffered endpoint at the same time.
+        self._process_span = ContextVar("otlp_process_span", default=None)
 
     # --------------------------------------------------------------------------------
     async def before_push(self, span_key: SpanKey, dto: PydanticBaseModel) -> dict:
@@ -40,11 +44,12 @@ class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
         span.set_attribute("request.trace_id", str(span_key.trace_id))
         span.set_attribute("request.span_id",  str(span_key.span_id))
         span.set_attribute("request.retries",  retries)
-        self._process_spans[span_key] = span
+        self._process_span.set(span)
 
     # --------------------------------------------------------------------------------
     async def after_process(self, span_key: SpanKey, dto: PydanticBaseModel, metadata: dict, success: bool) -> None:
-        span = self._process_spans.pop(span_key, None)
+        span = self._process_span.get()
         if span:
+            self._process_span.set(None)
             span.set_attribute("process.success", success)
             span.end()
diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
index 9e8524b..05cc282 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
@@ -1,3 +1,5 @@
+from contextvars                               import ContextVar
+
 from opentelemetry                             import trace
 from opentelemetry.sdk.trace                   import TracerProvider
 from opentelemetry.sdk.trace.export            import BatchSpanProcessor
@@ -10,9 +12,11 @@ from ekosis.middleware.middleware_base         import MiddlewareBase
 from ekosis.data_transfer_objects              import RequestDTO, SpanKey
 from ekosis.configuration.config_models        import AppConfiguration
 
+# The span of the request being handled, with its span_key. Per asyncio Task, and not
+# per span_key: Requests with the same span_key can be in progress at the same time.
 # --------------------------------------------------------------------------------
 class OtlpTracingMiddleware(MiddlewareBase):
-    _active_spans        = {}
+    _active_span         = ContextVar("otlp_active_span", default=(None, None))
     application_name     = AppConfiguration().name
     application_instance = AppConfiguration().instance
 
@@ -41,17 +45,19 @@ class OtlpTracingMiddleware(MiddlewareBase):
         span.set_attribute("request.trace_id",  str(span_key.trace_id))
         span.set_attribute("request.span_id",   str(span_key.span_id))
         span.set_attribute("request.route_key", protocol_dto.route_key)
-        self._active_spans[span_key] = span
+        self._active_span.set((span_key, span))
         return protocol_dto
 
     # --------------------------------------------------------------------------------
     async def after_routing(self, protocol_dto: RequestDTO, response_dto: PydanticBaseModel, **kwargs) -> PydanticBaseModel:
-        span = self._active_spans.pop(protocol_dto.span_key, None)
+        span = self.get_active_span(protocol_dto.span_key)
         if span:
+            self._active_span.set((None, None))
             span.set_status(StatusCode.OK)
             span.end()
         return response_dto
 
     # --------------------------------------------------------------------------------
     def get_active_span(self, span_key: SpanKey):
-        return self._active_spans.get(span_key)
+        active_span_key, span = self._active_span.get()
+        return span if active_span_key == span_key else None
-- 
2.43.0


From e615457ceaa3dbca9f0451f641e573f78830f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 41/52] fix: the buffered sender manager uses the options its
 command line defines

---
 ekosis/cli/bsm.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ekosis/cli/bsm.py b/ekosis/cli/bsm.py
index 1982925..8ff920b 100644
--- a/ekosis/cli/bsm.py
+++ b/ekosis/cli/bsm.py
@@ -25,16 +25,9 @@ command_line_args: argparse.Namespace = argument_parser.parse_args()
 
 # --------------------------------------------------------------------------------
 async def do_sender_action(client: ClientBase, route_key: str):
-    if (command_line_args.pause_receiving   or
-        command_line_args.pause_processing  or
-        command_line_args.unpause_receiving or
-        command_line_args.unpause_processing):
-        print_error(argument_parser, "Pause and UN-Pause for receiving and processing, is only for buffered endpoints!")
-
-    if command_line_args.data or not any_true_check([
-        command_line_args.data,
-        command_line_args.pause_all,
-        command_line_args.unpause_all,
+    if not any_true_check([
+        command_line_args.pause_sending,
+        command_line_args.unpause_sending,
         command_line_args.error_10,
         command_line_args.reprocess_all,
         command_line_args.clear,
@@ -45,10 +38,10 @@ async def do_sender_action(client: ClientBase, route_key: str):
         await EcoBufferedSenderDataSender(client).send(route_key)
         return
 
-    if command_line_args.pause_all:
+    if command_line_args.pause_sending:
         await EcoBufferedSenderSendProcessPauseSender(client).send(route_key)
         return
-    if command_line_args.unpause_all:
+    if command_line_args.unpause_sending:
         await EcoBufferedSenderSendProcessUnPauseSender(client).send(route_key)
         return
     if command_line_args.error_10:
-- 
2.43.0


From 8af7346cd85be559edbbeb35ebf29080701020d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:22 +0000
Subject: [PATCH 42/52] fix: numbers that are not finite are kept over the
 attempts at a buffered request

---
 ekosis/queues/pending_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ekosis/queues/pending_queue.py b/ekosis/queues/pending_queue.py
index 8a0eb36..d26354f 100644
--- a/ekosis/queues/pending_queue.py
+++ b/ekosis/queues/pending_queue.py
@@ -1,7 +1,7 @@
 import logging
 
 from typing import Any, List
-from pydantic import BaseModel as PydanticBaseModel
+from pydantic import BaseModel as PydanticBaseModel, ConfigDict
 from .paginated_queue import PaginatedQueue
 from ..data_transfer_objects import SpanKey
 
@@ -9,6 +9,8 @@ log = logging.getLogger()
 
 # --------------------------------------------------------------------------------
 class PendingEntry(PydanticBaseModel):
+    # What a request was queued as the first time, is what it must be each time after that.
+    model_config = ConfigDict(ser_json_inf_nan='constants')
     span_key: SpanKey
     retries : int  = 0
     data    : Any
@@ -16,6 +18,7 @@ class PendingEntry(PydanticBaseModel):
 
 # --------------------------------------------------------------------------------
 class ErrorEntry(PydanticBaseModel):
+    model_config = ConfigDict(ser_json_inf_nan='constants')
     span_key: SpanKey
     data    : Any
     reason  : str
-- 
2.43.0


From 710e936e9be7c19c8bdc0e7549803713def11ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:58 +0000
Subject: [PATCH 43/52] fix: the LRU cache keeps its order and its capacity for
 every sequence of operations

New entries were linked next to a stale tail, entries emptied by a removal stayed
in the ring beside new ones, and a cache of one entry could not be set twice.
---
 ekosis/cacheing/lru_cache.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 79dd70f..7c915eb 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -8,7 +8,6 @@ class LRUCache:
         self.max_size     : int                   = max_size
         self._cached_items: Dict[Any, LRUCachedItem] = {}
         self.head         : LRUCachedItem            = None
-        self.tail         : LRUCachedItem            = None
 
     # --------------------------------------------------------------------------------
     def __insert(self, key: Any, value: Any):
@@ -17,17 +16,13 @@ class LRUCache:
         new_node.key   = key
         new_node.value = value
         if self.head is None:
-            self.head = new_node
-            self.tail = new_node
+            new_node.previous = new_node
+            new_node.next     = new_node
         else:
-            new_node.previous = self.tail
-            new_node.next     = self.head
-            if self.tail is self.head:
-                self.head.previous = new_node
-                self.head.next     = new_node
-            else:
-                self.tail.next     = new_node
-                self.head.previous = new_node
+            new_node.previous       = self.head.previous
+            new_node.next           = self.head
+            self.head.previous.next = new_node
+            self.head.previous      = new_node
         self._cached_items[key] = new_node
         return new_node
 
@@ -159,7 +154,8 @@ class LRUCache:
             self.__list_move_to_front(cached_item)
             return
 
-        if len(self._cached_items) < self.max_size:
+        # Emptied items are at the end, they get used again before new ones are added.
+        if len(self._cached_items) < self.max_size and (self.head is None or not self.head.previous.empty):
             cached_item = self.__insert(key, value)
             self.head   = cached_item
         else:
-- 
2.43.0


From 3756872a5912914fdbd37e47aae1225dd9ea814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:04 +0000
Subject: [PATCH 44/52] fix: the configured log level is applied

ECOENV_LOG_LEVEL and logging.level in a configuration file were read and then ignored.
---
 ekosis/logs/logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index eac2150..3f684d1 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -88,6 +88,7 @@ class EcoLogger(metaclass=SingletonType):
             self.__setup_console_logging()
 
         self.__logger.setLevel(self.__level)
+        self.set_level(self.__log_config.level)
         # This switches asyncio logging to level WARNING
         # logging.getLogger('asyncio').setLevel(logging.WARNING)
 
-- 
2.43.0


From 7d5d3a9f3151883cf0aab84702134a5d70d59408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 45/52] fix: the middleware classes can be imported from where
 the documentation says

---
 ekosis/middleware/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ekosis/middleware/__init__.py b/ekosis/middleware/__init__.py
index e69de29..2882f7e 100644
--- a/ekosis/middleware/__init__.py
+++ b/ekosis/middleware/__init__.py
@@ -0,0 +1,4 @@
+from .buffered_middleware_base    import BufferedMiddlewareBase
+from .buffered_middleware_manager import BufferedMiddlewareManager
+from .manager                     import MiddlewareManager
+from .middleware_base             import MiddlewareBase
-- 
2.43.0


From efddede6f5839cb715703d99a0b1992eeedf444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:53 +0000
Subject: [PATCH 46/52] fix: a request that middleware replaced is dispatched
 by the route key of the replacement

---
 ekosis/requests/request_router.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ekosis/requests/request_router.py b/ekosis/requests/request_router.py
index 378aa97..f2447b3 100644
--- a/ekosis/requests/request_router.py
+++ b/ekosis/requests/request_router.py
@@ -59,7 +59,9 @@ class RequestRouter(metaclass=SingletonType):
             kwargs["protocol_dto"]  = protocol_dto
             middleware_protocol_dto = await self.__middleware_manager.run_before_routing(**kwargs) # Middleware before routing
             kwargs["protocol_dto"]  = middleware_protocol_dto
-            kwargs["response_dto"]  = await self.__routing_table[protocol_dto.route_key].attempt_request(**kwargs)
+            if middleware_protocol_dto.route_key not in self.__routing_table.keys():
+                raise UnknownRouteKeyException(middleware_protocol_dto.route_key)
+            kwargs["response_dto"]  = await self.__routing_table[middleware_protocol_dto.route_key].attempt_request(**kwargs)
             kwargs["protocol_dto"]  = middleware_protocol_dto
             response                = await self.__middleware_manager.run_after_routing(**kwargs)  # Middleware after routing
             return response
-- 
2.43.0


From acd11d651110fd1eb2bdff9aaea6b307f63e55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 47/52] fix: a function that is run soon can be given keyword
 arguments

---
 ekosis/util/fire_and_forget_tasks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/util/fire_and_forget_tasks.py b/ekosis/util/fire_and_forget_tasks.py
index 87d26f3..7fc68ec 100644
--- a/ekosis/util/fire_and_forget_tasks.py
+++ b/ekosis/util/fire_and_forget_tasks.py
@@ -1,4 +1,5 @@
 import asyncio
+import functools
 
 FIRE_AND_FORGET_TASKS = set()
 
@@ -30,5 +31,5 @@ def run_soon(function):
 
     def wrapper(*args, **kwargs):
         loop = asyncio.get_running_loop()
-        loop.call_soon(called_task, loop, *args, **kwargs)
+        loop.call_soon(functools.partial(called_task, loop, *args, **kwargs))
     return wrapper
-- 
2.43.0


From 34869e770b66bdd3aab25c08870022816a225d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 48/52] fix: background tasks are running before the first
 request reaches an endpoint

---
 ekosis/application_base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index d870854..c01730a 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -312,9 +312,14 @@ class ApplicationBase(metaclass=SingletonType):
     async def __run_until_done(self):
         tasks = []
 
-        await self.__setup_buffered_handlers()
         await self.__setup_buffered_senders()
 
+        # Before anything that can hand a request to an endpoint: the tasks that are
+        # set up here, have to be running by then.
+        await self.setup_tasks(tasks)
+
+        await self.__setup_buffered_handlers()
+
         for buffered_handler in self.__request_router.get_buffered_handlers():
             task = asyncio.create_task(buffered_handler.wait_for_shutdown())
             tasks.append(task)
@@ -329,7 +334,5 @@ class ApplicationBase(metaclass=SingletonType):
         tasks.append(asyncio.create_task(self.__start_udp_server()))
         tasks.append(asyncio.create_task(self.__start_uds_server()))
 
-        await self.setup_tasks(tasks)
-
         self.__eco_logger.flush()
         await asyncio.gather(*tasks)
-- 
2.43.0


From c67afe87af72e8eee981189d09a0a4200cd1bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 49/52] fix: an application that ends before its servers are
 set up saves its queues

---
 ekosis/servers/json/tcp.py | 6 ++++--
 ekosis/servers/json/uds.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ekosis/servers/json/tcp.py b/ekosis/servers/json/tcp.py
index 17cdc39..281ce68 100644
--- a/ekosis/servers/json/tcp.py
+++ b/ekosis/servers/json/tcp.py
@@ -20,7 +20,8 @@ class TCPServer(StreamServerBase):
             await self.__setup_server()
         except Exception as e:
             self._running = False
-            self._server.close()
+            if self._server is not None: # it may end before it is set up
+                self._server.close()
             raise e
 
     # --------------------------------------------------------------------------------
@@ -32,7 +33,8 @@ class TCPServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping TCP server for {self.host}:{self.port}.")
-            self._server.close()
+            if self._server is not None: # it may end before it is set up
+                self._server.close()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
diff --git a/ekosis/servers/json/uds.py b/ekosis/servers/json/uds.py
index 30fe199..8f163f2 100644
--- a/ekosis/servers/json/uds.py
+++ b/ekosis/servers/json/uds.py
@@ -22,7 +22,8 @@ class UDSServer(StreamServerBase):
                 await self.__setup_server()
             except Exception as e:
                 self._running = False
-                self._server.close()
+                if self._server is not None: # it may end before it is set up
+                    self._server.close()
                 raise e
         else:
             self._logger.info(f"UDS not supported on this platform, will not start server.")
@@ -37,7 +38,8 @@ class UDSServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping UDS server for {self.__server_path}.")
-            self._server.close()
+            if self._server is not None: # it may end before it is set up
+                self._server.close()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-- 
2.43.0


From a88b44aa433ef40c0e523cf68f1087c3ed1cb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:13 +0000
Subject: [PATCH 50/52] fix: a UDP client does not take a late response for
 that to a later message with the same span key

---
 ekosis/clients/datagram_client_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ccd0bbf..7e18260 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -85,10 +85,9 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
             try:
                 return await self.protocol.send_message(message)
-            except BaseException: # The response could still arrive, so this endpoint may not be used again.
+            finally: # A late or duplicated response could still arrive, so this endpoint may not be used again.
                 self.initialised = False
                 self.transport.close()
-                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From 40028964fb60c227d8ac639a56de6a4c9ad743b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:19 +0000
Subject: [PATCH 51/52] fix: heartbeats resume when a request directly follows
 close_connection()

---
 ekosis/clients/persistent_stream_client_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 605c34d..94f7049 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -56,6 +56,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
     async def close_connection(self):
         if self.__heartbeat_task is not None:
             self.__heartbeat_task.cancel()
+            self.__heartbeat_task = None # So that the next request starts a new one.
         self.__drop_connection()
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From 3aee0783325de5f2a145cf63a627487f11db24c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 52/52] fix: a span id is sixteen hexadecimal digits, without
 sign, prefix or underscores

---
 ekosis/data_transfer_objects/span_id.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index dfe914b..a45c9dc 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -13,17 +13,17 @@ class SpanId:
             if not 0 <= int_ < 1 << 64:
                 raise ValueError('int is out of range (need a 64-bit value)')
 
+        if hex_ is not None:
+            if len(hex_) != 16:
+                raise ValueError('badly formed hexadecimal SpanId string')
+            bytes_ = bytes.fromhex(hex_) # int() would take a sign, a prefix and underscores too
+
         if bytes_ is not None:
             if len(bytes_) != 8:
                 raise ValueError('bytes_ is not a 8-char string')
             assert isinstance(bytes_, bytes), repr(bytes_)
             int_ = int.from_bytes(bytes_, 'big')  # big endian
 
-        if hex_ is not None:
-            if len(hex_) != 16:
-                raise ValueError('badly formed hexadecimal SpanId string')
-            int_ = int(hex_, 16)
-
         self._value: int = int_
 
     # ----------------------------------------------------------------------------
-- 
2.43.0

