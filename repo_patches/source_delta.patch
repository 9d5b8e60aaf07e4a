From 384843ab7d2dab3ecd22047c978500469590e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 01/89] fix: follow-dependency on a task that failed without
 running

maybe_run looked up the destination of every finished dependency,
but tasks that never ran (impossible, invalid, timed out) have none,
so the dependent task was lost to a KeyError instead of being answered.
---
 ipyparallel/controller/task_scheduler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index b354b96..bf325d8 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -535,7 +535,9 @@ class TaskScheduler(Scheduler):
                     if job.follow.failure:
                         relevant = relevant.union(self.all_failed)
                     for m in job.follow.intersection(relevant):
-                        dests.add(self.destinations[m])
+                        # tasks that failed without running have no destination
+                        if m in self.destinations:
+                            dests.add(self.destinations[m])
                     if len(dests) > 1:
                         self.queue_map[msg_id] = job
                         self.fail_unreachable(msg_id)
-- 
2.43.0


From 919fbca2be66a74218a932ad8a83aa41e5980acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 02/89] fix: task run from the graph could be run again from
 the queue

When update_graph runs a dependent task without walking the queue,
the job stayed in the queue and was assigned a second time by the next
full update. Mark it removed, and clear the mark when it is queued again.
---
 ipyparallel/controller/task_scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index bf325d8..5398ab9 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -560,6 +560,7 @@ class TaskScheduler(Scheduler):
         """Save a message for later submission when its dependencies are met."""
         msg_id = job.msg_id
         self.log.debug("Adding task %s to the queue", msg_id)
+        job.removed = False
         self.queue_map[msg_id] = job
         self.queue.append(job)
         # track the ids in follow or after, but not those already finished
@@ -742,6 +743,8 @@ class TaskScheduler(Scheduler):
                 if self.maybe_run(job):
                     put_it_back = False
                     self.queue_map.pop(msg_id)
+                    # lazy-delete, in case it is still in the queue
+                    job.removed = True
                     for mid in job.dependents:
                         if mid in self.graph:
                             self.graph[mid].remove(msg_id)
-- 
2.43.0


From df4a7c6db147b3b358a9611602f526272a1e49ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 03/89] fix: preserve queue order when putting tasks back

extendleft reverses its argument, so every unsuccessful scan reversed the
order of the waiting tasks.
---
 ipyparallel/controller/task_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 5398ab9..83156aa 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -765,7 +765,7 @@ class TaskScheduler(Scheduler):
 
         # put back any tasks we popped but didn't run
         if using_queue:
-            self.queue.extendleft(to_restore)
+            self.queue.extendleft(reversed(to_restore))
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From 3f8e615ae5e6f870a1e463e63448a0e036479317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 04/89] fix: broadcast schedulers in one process shared their
 reply accumulators

All nodes of the tree key these by the same original msg_id, so running
schedulers in threads made them overwrite each other's pending replies.
---
 ipyparallel/controller/broadcast_scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 667b9b1..4b93212 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -1,7 +1,7 @@
 import logging
 
 import zmq
-from traitlets import Bool, Bytes, Integer, List, Unicode
+from traitlets import Bool, Bytes, Dict, Integer, List, Unicode
 
 from ipyparallel import util
 from ipyparallel.controller.scheduler import (
@@ -13,8 +13,8 @@ from ipyparallel.controller.scheduler import (
 
 class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
-    accumulated_replies = {}
-    accumulated_targets = {}
+    accumulated_replies = Dict()
+    accumulated_targets = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
-- 
2.43.0


From 3faa121735e5c2a709c1ea81b2dd08524b5b436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 05/89] fix: inverted $gt and failing comparisons with unset
 fields in DictDB queries

---
 ipyparallel/controller/dictdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index e9e67e7..418c77a 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -49,12 +49,12 @@ from ..util import ensure_timezone
 copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
 filters = {
-    '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: b > a,
+    '$lt': lambda a, b: a is not None and a < b,
+    '$gt': lambda a, b: a is not None and a > b,
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
-    '$lte': lambda a, b: a <= b,
-    '$gte': lambda a, b: a >= b,
+    '$lte': lambda a, b: a is not None and a <= b,
+    '$gte': lambda a, b: a is not None and a >= b,
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
     '$all': lambda a, b: all([a in bb for bb in b]),
-- 
2.43.0


From 5d473cddff928cc7e555d3e997a5f1b102b0115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 06/89] fix: DictDB queries on several keys compared them all
 with the last value

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 418c77a..1e2686f 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -158,7 +158,7 @@ class DictDB(BaseDB):
             if isinstance(v, dict):
                 tests[k] = CompositeFilter(v)
             else:
-                tests[k] = lambda o: _add_tz(o) == _add_tz(v)
+                tests[k] = lambda o, v=v: _add_tz(o) == _add_tz(v)
 
         for rec in self._records.values():
             if self._match_one(rec, tests):
-- 
2.43.0


From c74b2b03a1be64146903b926784d1159d33f0d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 07/89] fix: DictDB records added again after being culled were
 unreachable

---
 ipyparallel/controller/dictdb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 1e2686f..64d70e0 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -40,7 +40,7 @@ import fnmatch
 from copy import deepcopy
 from datetime import datetime
 
-from traitlets import Dict, Float, Integer, Unicode
+from traitlets import Dict, Float, Integer, Set, Unicode
 from traitlets.config.configurable import LoggingConfigurable
 
 from ..util import ensure_timezone
@@ -108,7 +108,7 @@ class DictDB(BaseDB):
     """
 
     _records = Dict()
-    _culled_ids = set()  # set of ids which have been culled
+    _culled_ids = Set()  # set of ids which have been culled
     _buffer_bytes = Integer(0)  # running total of the bytes in the DB
 
     size_limit = Integer(
@@ -244,6 +244,8 @@ class DictDB(BaseDB):
             raise KeyError(f"Already have msg_id {msg_id!r}")
         self._check_dates(rec)
         self._records[msg_id] = rec
+        # no longer culled, e.g. late results recreating the record
+        self._culled_ids.discard(msg_id)
         self._add_bytes(rec)
         self._maybe_cull()
 
-- 
2.43.0


From 4e6d5a64a01b213612b05137b5019ef875ca046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 08/89] fix: empty queries and empty id lists were SQL errors
 on the SQLite backend

---
 ipyparallel/controller/sqlitedb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 8eb42ff..20c07d2 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -351,7 +351,10 @@ class SQLiteDB(BaseDB):
                         expr = f"{name} {null_operators[op]}"
                     else:
                         expr = f"{name} {op} ?"
-                        if isinstance(value, (tuple, list)):
+                        if isinstance(value, (tuple, list)) and not value:
+                            # nothing is in an empty list
+                            expr = '1' if test == '$nin' else '0'
+                        elif isinstance(value, (tuple, list)):
                             if op in null_operators and any([v is None for v in value]):
                                 # equality tests don't work with NULL
                                 raise ValueError(
@@ -370,7 +373,8 @@ class SQLiteDB(BaseDB):
                     expressions.append(f"{name} = ?")
                     args.append(sub_check)
 
-        expr = " AND ".join(expressions)
+        # an empty check matches everything
+        expr = " AND ".join(expressions) or "1"
         return expr, args
 
     def add_record(self, msg_id, rec):
-- 
2.43.0


From ab0b1f9535abc6ae1ea43716434ef228ee7331d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 09/89] fix: execute results and errors came back as JSON
 strings from the SQLite backend

---
 ipyparallel/controller/sqlitedb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 20c07d2..eb17440 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -180,8 +180,8 @@ class SQLiteDB(BaseDB):
             'result_buffers': 'bufs blob',
             'queue': 'text',
             'execute_input': 'text',
-            'execute_result': 'text',
-            'error': 'text',
+            'execute_result': 'dict text',
+            'error': 'dict text',
             'stdout': 'text',
             'stderr': 'text',
             'label': 'text',
@@ -303,8 +303,8 @@ class SQLiteDB(BaseDB):
                 result_buffers bufs blob,
                 queue text,
                 execute_input text,
-                execute_result text,
-                error text,
+                execute_result dict text,
+                error dict text,
                 stdout text,
                 stderr text,
                 label text)
-- 
2.43.0


From f2befa07c22cc279b4ae84c4450439f31cc989f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 10/89] fix: result requests for stored tasks used the state of
 another task

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 282ffa1..a3f20ad 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1421,7 +1421,7 @@ class Hub(LoggingConfigurable):
                     content[msg_id] = c
                     buffers.extend(bufs)
             elif msg_id in records:
-                if rec['completed']:
+                if records[msg_id]['completed']:
                     completed.append(msg_id)
                     c, bufs = self._extract_record(records[msg_id])
                     content[msg_id] = c
-- 
2.43.0


From efe287fce6a83b9d232b04188c434290c3d68675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 11/89] fix: status-only result requests failed for stored
 tasks

---
 ipyparallel/controller/hub.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index a3f20ad..8c35cd2 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1391,9 +1391,18 @@ class Hub(LoggingConfigurable):
         content['pending'] = pending
         content['completed'] = completed
         buffers = []
-        if not statusonly:
+        if statusonly:
+            # only need the db for tasks from before this session
+            lookup = [
+                msg_id
+                for msg_id in msg_ids
+                if msg_id not in self.pending and msg_id not in self.all_completed
+            ]
+        else:
+            lookup = msg_ids
+        if lookup:
             try:
-                matches = self.db.find_records(dict(msg_id={'$in': msg_ids}))
+                matches = self.db.find_records(dict(msg_id={'$in': lookup}))
                 # turn match list into dict, for faster lookup
                 records = {}
                 for rec in matches:
@@ -1423,9 +1432,10 @@ class Hub(LoggingConfigurable):
             elif msg_id in records:
                 if records[msg_id]['completed']:
                     completed.append(msg_id)
-                    c, bufs = self._extract_record(records[msg_id])
-                    content[msg_id] = c
-                    buffers.extend(bufs)
+                    if not statusonly:
+                        c, bufs = self._extract_record(records[msg_id])
+                        content[msg_id] = c
+                        buffers.extend(bufs)
                 else:
                     pending.append(msg_id)
             else:
-- 
2.43.0


From 01218582ff98b003f58e0dbc03bffe260037fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 12/89] fix: load requests always failed

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 8c35cd2..decf0d4 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1169,7 +1169,7 @@ class Hub(LoggingConfigurable):
         content = dict(status='ok')
         # loads = {}
         for t in targets:
-            content[bytes(t)] = len(self.queues[t]) + len(self.tasks[t])
+            content[str(t)] = len(self.queues[t]) + len(self.tasks[t])
         self.session.send(
             self.query, "load_reply", content=content, ident=client_id, parent=msg
         )
-- 
2.43.0


From f2fec597ee101ba0bb2fac2cb3f20eaa22fd2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 13/89] fix: invalid broadcast results were processed further

---
 ipyparallel/controller/hub.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index decf0d4..9cca5ef 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -589,8 +589,10 @@ class Hub(LoggingConfigurable):
             msg = self.session.deserialize(msg)
         except Exception as e:
             self.log.error(
-                f'broadcast::invalid broadcast result message send to {client_id}:'
+                f'broadcast::invalid broadcast result message send to {client_id}:',
+                exc_info=True,
             )
+            return
 
         # save the result of a completed broadcast
         parent = msg['parent_header']
-- 
2.43.0


From 0757b5f2489107ddf4111272dd4ea9e2bdd2b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 14/89] fix: unregistered engines remained valid targets in the
 hub

---
 ipyparallel/controller/hub.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 9cca5ef..ee64baf 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -990,6 +990,7 @@ class Hub(LoggingConfigurable):
         # cleanup mappings
         self.by_ident.pop(ec.ident, None)
         self.engines.pop(eid, None)
+        self.ids.discard(eid)
 
         self._save_engine_state()
 
-- 
2.43.0


From e7329277e63461af3276b42cf5406a52ea818ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 15/89] fix: a database read error lost track of requests to
 engines

---
 ipyparallel/controller/hub.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index ee64baf..9d9ed89 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -496,6 +496,8 @@ class Hub(LoggingConfigurable):
                 self.db.add_record(msg_id, record)
             except Exception:
                 self.log.error("DB Error adding record %r", msg_id, exc_info=True)
+        except Exception:
+            self.log.error("DB Error saving queue request %r", msg_id, exc_info=True)
 
         self.pending.add(msg_id)
         self.queues[eid].append(msg_id)
-- 
2.43.0


From 55c00c540a4cac3431f5aad5176d166091b2d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 16/89] fix: DictDB limits were not enforced for small limits
 and unsubmitted records

---
 ipyparallel/controller/dictdb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 64d70e0..b8f93e3 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -189,7 +189,12 @@ class DictDB(BaseDB):
 
     def _cull_oldest(self, n=1):
         """cull the oldest N records"""
-        for msg_id in self.get_history()[:n]:
+        msg_ids = self.get_history()[:n]
+        if len(msg_ids) < n:
+            # cull records which were never submitted after those that were
+            unsubmitted = [m for m in self._records if m not in set(msg_ids)]
+            msg_ids.extend(unsubmitted[: n - len(msg_ids)])
+        for msg_id in msg_ids:
             self.log.debug("Culling record: %r", msg_id)
             self._culled_ids.add(msg_id)
             self.drop_record(msg_id)
@@ -197,7 +202,7 @@ class DictDB(BaseDB):
     def _maybe_cull(self):
         # cull by count:
         if len(self._records) > self.record_limit:
-            to_cull = int(self.cull_fraction * self.record_limit)
+            to_cull = max(1, int(self.cull_fraction * self.record_limit))
             self.log.info(
                 "%i records exceeds limit of %i, culling oldest %i",
                 len(self._records),
-- 
2.43.0


From b2895b51b26bae96f44556eeb07b8b9583d483bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 17/89] fix: SQLite backend compared times in different
 timezones as text

---
 ipyparallel/controller/sqlitedb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index eb17440..446ee51 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     import pickle
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 try:
     import sqlite3
@@ -90,8 +90,11 @@ def _convert_bufs(bs):
 
 
 def _adapt_timestamp(dt):
-    """Adapt datetime to text"""
-    return ensure_timezone(dt).isoformat()
+    """Adapt datetime to text
+
+    Always in UTC, because the text is what gets compared
+    """
+    return ensure_timezone(dt).astimezone(timezone.utc).isoformat()
 
 
 def _convert_timestamp(s):
-- 
2.43.0


From 25017a75b92c0560af1a1ab71d9312a50a218e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 18/89] fix: SQLite queries for different values left out
 records where the field is unset

---
 ipyparallel/controller/sqlitedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 446ee51..85a79ad 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -39,11 +39,12 @@ operators = {
     '$gt': ">",
     # null is handled weird with ==,!=
     '$eq': "=",
-    '$ne': "!=",
+    # unset fields are not equal to any value
+    '$ne': "IS NOT",
     '$lte': "<=",
     '$gte': ">=",
     '$in': ('=', ' OR '),
-    '$nin': ('!=', ' AND '),
+    '$nin': ('IS NOT', ' AND '),
     # '$all': None,
     # '$mod': None,
     # '$exists' : None
@@ -51,7 +52,7 @@ operators = {
 }
 null_operators = {
     '=': "IS NULL",
-    '!=': "IS NOT NULL",
+    'IS NOT': "IS NOT NULL",
 }
 
 
-- 
2.43.0


From c2d2f52605dda480cebcbb18df582875e0a27657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 19/89] fix: apply requests were never answered when stdout
 could not be flushed

---
 ipyparallel/engine/kernel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index f346371..4e131fa 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -122,8 +122,13 @@ class IPythonParallelKernel(IPythonKernel):
         md = self.finish_metadata(parent, md, reply_content)
 
         # flush i/o
-        sys.stdout.flush()
-        sys.stderr.flush()
+        # user code may have closed or replaced the streams,
+        # which must not prevent the reply from being sent
+        for f in (sys.stdout, sys.stderr):
+            try:
+                f.flush()
+            except Exception as e:
+                self.log.warning(f"Failed to flush {f}: {e}")
         self.log.debug(f'Sending apply_reply: {msg_id}')
         self.session.send(
             stream,
-- 
2.43.0


From 99cd0d0747ab4d9dbf7352ba75cdd5a0dee2f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 20/89] fix: abort request without msg_ids was not answered

---
 ipyparallel/engine/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index 4e131fa..de0b4d5 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -234,7 +234,7 @@ class IPythonParallelKernel(IPythonKernel):
             f = self._abort_queues()
             if inspect.isawaitable(f):
                 asyncio.ensure_future(f)
-        for mid in msg_ids:
+        for mid in msg_ids or []:
             self.aborted.add(str(mid))
 
         content = dict(status='ok')
-- 
2.43.0


From fa4ed6e1a34f84859ae965c2e03fe7de3cfcf775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 21/89] fix: forwarding engine logs failed: there is no
 IPEngine.engine

---
 ipyparallel/engine/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/app.py b/ipyparallel/engine/app.py
index 64d100d..993e0bf 100755
--- a/ipyparallel/engine/app.py
+++ b/ipyparallel/engine/app.py
@@ -939,7 +939,7 @@ class IPEngine(BaseParallelApplication):
             context = self.context
             lsock = context.socket(zmq.PUB)
             lsock.connect(self.log_url)
-            handler = EnginePUBHandler(self.engine, lsock)
+            handler = EnginePUBHandler(self, lsock)
             handler.setLevel(self.log_level)
             self.log.addHandler(handler)
 
-- 
2.43.0


From 41a4f57c9cabf039c02833ccadbf4a620f8ea40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 22/89] fix: the engine port of a configured port pair is its
 second

---
 ipyparallel/controller/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 8de42a0..dbcee60 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -446,7 +446,7 @@ class IPController(BaseParallelApplication):
             " Use IPController.ports config instead."
         )
         self.client_ports.append(change.new[0])
-        self.engine_ports.append(change.new[0])
+        self.engine_ports.append(change.new[1])
 
     @observe("hb")
     def _hb_ports_assigned(self, change):
-- 
2.43.0


From 2e5601a2d6bfa19e55cd64e6ed70d6b3fe4b1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 23/89] fix: listen for engine registration whenever its
 address is not that of clients

Reused connection files set the addresses without the interfaces.
---
 ipyparallel/controller/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index dbcee60..daf242c 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -847,7 +847,7 @@ class IPController(BaseParallelApplication):
         self.log.info(
             "Hub listening on %s for registration.", self.client_url('registration')
         )
-        if self.client_ip != self.engine_ip:
+        if self.client_url('registration') != self.engine_url('registration'):
             self.bind(query, self.engine_url('registration'))
             self.log.info(
                 "Hub listening on %s for registration.", self.engine_url('registration')
-- 
2.43.0


From 7ad9908b42853af32c376b6f0c9923658bf1697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 24/89] fix: broadcast schedulers dropped monitor messages
 beyond the high-water mark

---
 ipyparallel/controller/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/scheduler.py b/ipyparallel/controller/scheduler.py
index b279b7e..701783b 100644
--- a/ipyparallel/controller/scheduler.py
+++ b/ipyparallel/controller/scheduler.py
@@ -147,6 +147,8 @@ def get_common_scheduler_streams(
         )
 
     mons = zmqstream.ZMQStream(ctx.socket(zmq.PUB), loop)
+    # the hub must see all messages
+    util.set_hwm(mons, 0)
     connect(mons, mon_addr)
     nots = zmqstream.ZMQStream(ctx.socket(zmq.SUB), loop)
     nots.setsockopt(zmq.SUBSCRIBE, b'')
@@ -198,7 +200,6 @@ def launch_scheduler(
         curve_secretkey=curve_secretkey,
     )
 
-    util.set_hwm(mons, 0)
     ins = ZMQStream(ctx.socket(zmq.ROUTER), loop)
     util.set_hwm(ins, 0)
     if identity:
-- 
2.43.0


From 092d1fc9032ca9eadb92c87ee521861e388c84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 25/89] fix: a result that cannot be deserialized resolves its
 request

The exception was lost in the IO thread, and the AsyncResult
never became ready.
---
 ipyparallel/client/client.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0e7fd64..d803114 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1000,15 +1000,22 @@ class Client(HasTraits):
 
         # construct result:
         if content['status'] == 'ok':
-            if md.get('is_coalescing', False):
-                deserialized_bufs = []
-                bufs = msg['buffers']
-                while bufs:
-                    deserialized, bufs = serialize.deserialize_object(bufs)
-                    deserialized_bufs.append(deserialized)
-                self.results[msg_id] = deserialized_bufs
-            else:
-                self.results[msg_id] = serialize.deserialize_object(msg['buffers'])[0]
+            try:
+                if md.get('is_coalescing', False):
+                    deserialized_bufs = []
+                    bufs = msg['buffers']
+                    while bufs:
+                        deserialized, bufs = serialize.deserialize_object(bufs)
+                        deserialized_bufs.append(deserialized)
+                    self.results[msg_id] = deserialized_bufs
+                else:
+                    self.results[msg_id] = serialize.deserialize_object(
+                        msg['buffers']
+                    )[0]
+            except Exception as e:
+                # the result cannot be loaded here: that is the result,
+                # nobody would ever be told otherwise
+                self.results[msg_id] = e
         elif content['status'] == 'aborted':
             self.results[msg_id] = error.TaskAborted(msg_id)
             out_future = self._output_futures.get(msg_id)
-- 
2.43.0


From 7ab112847567b4297201d84c2768f91be68fb04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 26/89] fix: a result that cannot be reconstructed resolves its
 AsyncResult

e.g. a gather of arrays whose shapes do not fit together.
---
 ipyparallel/client/asyncresult.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3478d34..980f174 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -513,27 +513,28 @@ class AsyncResult(Future):
     def _resolve_result(self, f=None):
         if self.done():
             return
-        if f:
-            results = f.result()
-        else:
-            results = list(map(self._client.results.get, self.msg_ids))
+        try:
+            if f:
+                results = f.result()
+            else:
+                results = list(map(self._client.results.get, self.msg_ids))
 
-        # store raw results
-        self._raw_results = results
+            # store raw results
+            self._raw_results = results
 
-        try:
             if self._single_result:
                 r = results[0]
                 if isinstance(r, Exception):
                     raise r
             else:
                 results = self._collect_exceptions(results)
+            result = self._reconstruct_result(results)
         except Exception as e:
             self._success = False
             self.set_exception(e)
         else:
             self._success = True
-            self.set_result(self._reconstruct_result(results))
+            self.set_result(result)
 
     def _collect_exceptions(self, results):
         """Wrap Exceptions in a CompositeError
-- 
2.43.0


From cba9d83a9e1dbab810fa20e26267521d7374dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 27/89] fix: a request that cannot be sent is resolved

Sending happens in the IO thread: a message that could not be serialized
was never sent, and its future never resolved.
---
 ipyparallel/client/client.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index d803114..239e181 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1292,7 +1292,6 @@ class Client(HasTraits):
                 if ident_str in self._engines.values():
                     # save for later, in case of engine death
                     self._outstanding_dict[ident_str].add(msg_id)
-            self.metadata['submitted'] = util.utcnow()
 
         if expect_reply:
             futures = self.create_message_futures(
@@ -1315,9 +1314,26 @@ class Client(HasTraits):
             multi_future(futures).add_done_callback(cleanup)
 
         def _really_send():
-            sent = self.session.send(
-                socket, msg, track=track, buffers=buffers, ident=ident
-            )
+            try:
+                sent = self.session.send(
+                    socket, msg, track=track, buffers=buffers, ident=ident
+                )
+            except Exception as e:
+                if not expect_reply:
+                    raise
+                # no reply is coming to a request that could not be sent
+                self.outstanding.discard(msg_id)
+                for msg_ids in list(self._outstanding_dict.values()):
+                    msg_ids.discard(msg_id)
+                if not futures[0].tracker.done():
+                    futures[0].tracker.set_result(None)
+                if msg_type in {'execute_request', 'apply_request'}:
+                    # the results of tasks may be exceptions
+                    futures[0].output.set_result(None)
+                    futures[0].set_result(e)
+                else:
+                    futures[0].set_exception(e)
+                return
             if track:
                 futures[0].tracker.set_result(sent['tracker'])
 
-- 
2.43.0


From 4c09d7579bfb910c3965a9475b7c8e627b1f9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 28/89] fix: broadcast requests are done when all of their
 parts are

Neither the original request nor the trackers of its parts were ever
resolved: Client.wait() and AsyncResult.wait_for_send() did not return.
---
 ipyparallel/client/view.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f5ca23b..5a59d7f 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -24,6 +24,7 @@ from .. import serialize
 from ..serialize import PrePickled
 from . import map as Map
 from .asyncresult import AsyncMapResult, AsyncResult
+from .futures import multi_future
 from .remotefunction import ParallelFunction, getname, parallel, remote
 
 # -----------------------------------------------------------------------------
@@ -940,14 +941,34 @@ class BroadcastView(DirectView):
                     msg_and_target_id,
                     message_future.header,
                     async_result=True,
-                    track=True,
                 )
+                # all parts are sent as one message
+                future[0].tracker = message_future.tracker
                 self.client.outstanding.add(msg_and_target_id)
                 self.client._outstanding_dict[ident].add(msg_and_target_id)
                 self.outstanding.add(msg_and_target_id)
                 futures.append(future[0])
             if original_msg_id in self.outstanding:
                 self.outstanding.remove(original_msg_id)
+
+            # no reply refers to the original request:
+            # it is done when all of its parts are
+            def _resolve_original(_):
+                self.client.outstanding.discard(original_msg_id)
+                for f in (message_future, message_future.output):
+                    if not f.done():
+                        f.set_result(None)
+
+            # unless it was never sent, then none of its parts get a reply
+            def _resolve_parts(f):
+                for part in futures:
+                    if not part.done():
+                        self.client.outstanding.discard(part.msg_id)
+                        part.set_result(f.result())
+                        part.output.set_result(None)
+
+            multi_future(futures).add_done_callback(_resolve_original)
+            message_future.add_done_callback(_resolve_parts)
         else:
             self.client.outstanding.add(original_msg_id)
             for ident in s_idents:
-- 
2.43.0


From 72a86d847f27908e4106a3129cb699792e81dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 29/89] fix: a call that submits nothing adds nothing to the
 history of a view

history[-0:] is the whole history of the client.
---
 ipyparallel/client/view.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 5a59d7f..d8aadca 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -39,8 +39,7 @@ def save_ids(f, self, *args, **kwargs):
     try:
         ret = f(self, *args, **kwargs)
     finally:
-        nmsgs = len(self.client.history) - n_previous
-        msg_ids = self.client.history[-nmsgs:]
+        msg_ids = self.client.history[n_previous:]
         self.history.extend(msg_ids)
         self.outstanding.update(msg_ids)
     return ret
-- 
2.43.0


From 3533776e470f75644dd38848d087349d24db2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 30/89] fix: a map that ends early is no longer outstanding

imap was never marked as done after an error, or when its results were not
all consumed: the shutdown of the view's executor did not return.
---
 ipyparallel/client/view.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index d8aadca..87fcc39 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1715,10 +1715,15 @@ class LoadBalancedView(View):
         def iter_results():
             nonlocal outstanding
             with consumer_pool:
-                while not iterator_done:
-                    # yield results as they become ready
-                    for ready_ar in wait_for_ready():
-                        yield ready_ar.get(return_exceptions=return_exceptions)
+                try:
+                    while not iterator_done:
+                        # yield results as they become ready
+                        for ready_ar in wait_for_ready():
+                            yield ready_ar.get(return_exceptions=return_exceptions)
+                finally:
+                    # the input is not consumed further
+                    # after an error, or when nobody wants more results
+                    signal_done()
 
             # yield any remaining results
             if ordered:
-- 
2.43.0


From 327dc7de36f030bcebb3435e0c7ae8f40cf979f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 31/89] fix: imap propagates the error of its input

it raised a TypeError instead, from the mock of AsyncResult.get
---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 87fcc39..dfc65e2 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1677,7 +1677,7 @@ class LoadBalancedView(View):
                 # exception consuming iterator, propagate
                 ar = concurrent.futures.Future()
                 # mock get so it gets re-raised when awaited
-                ar.get = lambda *args: ar.result()
+                ar.get = lambda *args, **kwargs: ar.result()
                 ar.set_exception(e)
                 with outstanding_lock:
                     add_outstanding(ar)
-- 
2.43.0


From d411c2a67aa0c955e50553f0db3e561bcaf0045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 32/89] fix: the executors of direct views can be shut down

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index dfc65e2..c27f695 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1795,7 +1795,7 @@ class ViewExecutor(concurrent.futures.Executor):
         if wait:
             # wait for *submission* of outstanding maps,
             # otherwise view.wait won't know what to wait for
-            outstanding_maps = getattr(self.view, "_outstanding_maps")
+            outstanding_maps = getattr(self.view, "_outstanding_maps", None)
             if outstanding_maps:
                 while outstanding_maps:
                     time.sleep(0.1)
-- 
2.43.0


From e72a50e9a366c7220b1a03dbcbee0f928097f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 33/89] fix: every waiter for engines is notified

The callbacks of waiters that are done are removed from the list
while it is iterated: the next waiter was skipped.
---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 239e181..18305c2 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -850,7 +850,8 @@ class Client(HasTraits):
         self._update_engines(d)
         event = {'event': 'register'}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # callbacks remove themselves
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _unregister_engine(self, msg):
@@ -868,7 +869,8 @@ class Client(HasTraits):
 
         event = {"event": "unregister"}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # callbacks remove themselves
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _handle_stranded_msgs(self, eid, uuid):
-- 
2.43.0


From 99c9876958ca34ee9e8aaced70f1ebc9d8903c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 34/89] fix: wait_for_engines does not miss engines that
 register as it is called

---
 ipyparallel/client/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 18305c2..4a5389b 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1608,6 +1608,13 @@ class Client(HasTraits):
         self._registration_callbacks.append(notify)
         future.add_done_callback(lambda f: self._registration_callbacks.remove(notify))
 
+        def check_registered():
+            # engines may have been registered before `notify` was
+            if not future.done() and len(self.ids) >= n:
+                notify({"event": "register"})
+
+        self._io_loop.add_callback(check_registered)
+
         def on_timeout():
             """Called when timeout is reached"""
             if future.done():
-- 
2.43.0


From 401e60e9d3351c16bcbff74bfebbd0de24f6f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 35/89] fix: sync_imports keeps forwarding imports after one
 that is not forwarded

or that failed: the import override was not restored.
---
 ipyparallel/client/view.py | 58 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index c27f695..46ecec8 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -457,35 +457,37 @@ class DirectView(View):
             save_import = builtins.__import__
             builtins.__import__ = local_import
 
-            import_frame = inspect.getouterframes(inspect.currentframe())[1].frame
-            if import_frame is not context_frame:
-                # only forward imports from the context frame,
-                # not secondary imports
-                # TODO: does this ever happen, or is the above `__import__` enough?
-                return local_import(name, globals, locals, fromlist, level)
-
-            if local:
-                mod = local_import(name, globals, locals, fromlist, level)
-            else:
-                raise NotImplementedError("remote-only imports not yet implemented")
-
-            key = name + ':' + ','.join(fromlist or [])
-            if level <= 0 and key not in modules:
-                modules.add(key)
-                if not quiet:
-                    if fromlist:
-                        print(
-                            "importing {} from {} on engine(s)".format(
-                                ','.join(fromlist), name
+            try:
+                import_frame = inspect.getouterframes(inspect.currentframe())[1].frame
+                if import_frame is not context_frame:
+                    # only forward imports from the context frame,
+                    # not secondary imports
+                    # TODO: does this ever happen, or is the above `__import__` enough?
+                    return local_import(name, globals, locals, fromlist, level)
+
+                if local:
+                    mod = local_import(name, globals, locals, fromlist, level)
+                else:
+                    raise NotImplementedError("remote-only imports not yet implemented")
+
+                key = name + ':' + ','.join(fromlist or [])
+                if level <= 0 and key not in modules:
+                    modules.add(key)
+                    if not quiet:
+                        if fromlist:
+                            print(
+                                "importing {} from {} on engine(s)".format(
+                                    ','.join(fromlist), name
+                                )
                             )
-                        )
-                    else:
-                        print(f"importing {name} on engine(s)")
-                results.append(self.apply_async(remote_import, name, fromlist, level))
-            # restore override
-            builtins.__import__ = save_import
-
-            return mod
+                        else:
+                            print(f"importing {name} on engine(s)")
+                    results.append(self.apply_async(remote_import, name, fromlist, level))
+
+                return mod
+            finally:
+                # restore override
+                builtins.__import__ = save_import
 
         # override __import__
         builtins.__import__ = view_import
-- 
2.43.0


From 0caaa8002dfeb319530a79dafc88786a8e80f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 36/89] fix: temp_flags restores flags when one of them is
 invalid

---
 ipyparallel/client/view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 46ecec8..7739a7e 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -181,9 +181,9 @@ class View(HasTraits):
         saved_flags = {}
         for f in self._flag_names:
             saved_flags[f] = getattr(self, f)
-        self.set_flags(**kwargs)
-        # yield to the with-statement block
         try:
+            self.set_flags(**kwargs)
+            # yield to the with-statement block
             yield
         finally:
             # postflight: restore saved flags
-- 
2.43.0


From 08aefa8a8b94ab3d828c194a5692e84eb7c4588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 37/89] fix: invalid dependencies and timeouts do not become
 flags of a view

they were set before they were validated.
---
 ipyparallel/client/view.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 7739a7e..4f5d13c 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1333,13 +1333,10 @@ class LoadBalancedView(View):
             set an optional user-defined task identifier
         """
 
-        super().set_flags(**kwargs)
         for name in ('follow', 'after'):
             if name in kwargs:
                 value = kwargs[name]
-                if self._validate_dependency(value):
-                    setattr(self, name, value)
-                else:
+                if not self._validate_dependency(value):
                     raise ValueError(f"Invalid dependency: {value!r}")
         if 'timeout' in kwargs:
             t = kwargs['timeout']
@@ -1349,7 +1346,7 @@ class LoadBalancedView(View):
                 if t < 0:
                     raise ValueError(f"Invalid timeout: {t}")
 
-            self.timeout = t
+        super().set_flags(**kwargs)
 
         return self  # returning self would allow direct calling of map/apply in one command (no context manager)
 
-- 
2.43.0


From 6e8af467ab5c734d82d6015df06dfcd6f57af712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 38/89] fix: broadcast requests carry the label of their view

---
 ipyparallel/client/view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 4f5d13c..92d1083 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -930,6 +930,7 @@ class BroadcastView(DirectView):
             targets=target_tuples,
             is_broadcast=True,
             is_coalescing=self.is_coalescing,
+            label=self.label,
         )
 
     def _make_async_result(self, message_future, s_idents, **kwargs):
@@ -942,6 +943,7 @@ class BroadcastView(DirectView):
                     msg_and_target_id,
                     message_future.header,
                     async_result=True,
+                    label=self.label,
                 )
                 # all parts are sent as one message
                 future[0].tracker = message_future.tracker
-- 
2.43.0


From 08376bc5c667721d80352cf13f93912b58d45f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 39/89] fix: errors of engines that are gone can be received

The error was lost in the IO thread, its request was never resolved.
---
 ipyparallel/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 4a5389b..78bec2d 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -805,7 +805,7 @@ class Client(HasTraits):
         # print e.traceback
         if e.engine_info and 'engine_id' not in e.engine_info:
             e_uuid = e.engine_info['engine_uuid']
-            eid = self._engines[e_uuid]
+            eid = self._engines.get(e_uuid)
             e.engine_info['engine_id'] = eid
         return e
 
-- 
2.43.0


From 7367fcac9bacc3bda85642e7ca8f9a56c2670e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 40/89] fix: purge the local results of targets

None was ever found: engines were compared as bytes and str,
and engine 0 was no target.
---
 ipyparallel/client/client.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 78bec2d..d5fba91 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2364,13 +2364,16 @@ class Client(HasTraits):
 
     def _msg_ids_from_target(self, targets=None):
         """Build a list of msg_ids from the list of engine targets"""
-        if not targets:  # needed as _build_targets otherwise uses all engines
+        # needed as _build_targets otherwise uses all engines
+        if not targets and targets != 0:
             return []
-        target_ids = self._build_targets(targets)[0]
+        target_ids = [
+            ident.decode("utf8") for ident in self._build_targets(targets)[0]
+        ]
         return [
             md_id
-            for md_id in self.metadata
-            if self.metadata[md_id]["engine_uuid"] in target_ids
+            for md_id, md in list(self.metadata.items())
+            if md["engine_uuid"] in target_ids
         ]
 
     def _msg_ids_from_jobs(self, jobs=None):
@@ -2464,7 +2467,8 @@ class Client(HasTraits):
         RuntimeError : if any of the tasks to be purged are still outstanding.
 
         """
-        if not targets and not jobs:
+        # 0 is an engine, and an index in the history
+        if not targets and not jobs and targets != 0 and jobs != 0:
             raise ValueError("Must specify at least one of `targets` and `jobs`")
 
         if jobs == 'all':
@@ -2506,9 +2510,10 @@ class Client(HasTraits):
 
             default : None
         """
-        if not targets and not jobs:
+        # 0 is an engine, and an index in the history
+        if not targets and not jobs and targets != 0 and jobs != 0:
             raise ValueError("Must specify at least one of `targets` and `jobs`")
-        if targets:
+        if targets or targets == 0:
             targets = self._build_targets(targets)[1]
 
         # construct msg_ids from jobs
-- 
2.43.0


From ebfc923c532fbe44bc2d853ea95b9bc9c664319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 41/89] fix: report which key is missing in a connection file

---
 ipyparallel/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index d5fba91..2fdc420 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -569,7 +569,7 @@ class Client(HasTraits):
                     "If you are reusing connection files, remove them and start ipcontroller again.",
                 ]
             )
-            raise ValueError(msg.format(exc.message))
+            raise ValueError(msg.format(exc.args[0]))
 
         util._disable_session_extract_dates()
         self.session = Session(**extra_args)
-- 
2.43.0


From d6c23492108f85c394cb118d534b250ee4865438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 42/89] fix: get_result returns all of the results that are
 asked for

only the first of an AsyncResult, and only those of the Hub if there were any.
---
 ipyparallel/client/client.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 2fdc420..4eccdff 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2402,18 +2402,23 @@ class Client(HasTraits):
     def _asyncresult_from_jobs(self, jobs=None, owner=False):
         """Construct an AsyncResult from msg_ids or asyncresult objects"""
         if not isinstance(jobs, (list, tuple, set, types.GeneratorType)):
-            single = True
+            # an AsyncResult may have many results
+            single = not isinstance(jobs, AsyncResult) or jobs._single_result
             jobs = [jobs]
         else:
             single = False
         futures = []
         msg_ids = []
+        # all of them, in order
+        job_ids = []
         for job in jobs:
             if isinstance(job, int):
                 job = self.history[job]
             if isinstance(job, str):
-                if job in self._futures:
-                    futures.append(job)
+                job_ids.append(job)
+                future = self._futures.get(job)
+                if future is not None:
+                    futures.append(future)
                 elif job in self.results:
                     f = MessageFuture(job)
                     f.set_result(self.results[job])
@@ -2424,6 +2429,7 @@ class Client(HasTraits):
                 else:
                     msg_ids.append(job)
             elif isinstance(job, AsyncResult):
+                job_ids.extend(job.msg_ids)
                 if job._children:
                     futures.extend(job._children)
                 else:
@@ -2432,8 +2438,8 @@ class Client(HasTraits):
                 raise TypeError(f"Expected msg_id, int, or AsyncResult, got {job!r}")
         if msg_ids:
             if single:
-                msg_ids = msg_ids[0]
-            return AsyncHubResult(self, msg_ids, owner=owner)
+                job_ids = job_ids[0]
+            return AsyncHubResult(self, job_ids, owner=owner)
         else:
             if single and futures:
                 futures = futures[0]
-- 
2.43.0


From 277f63cebe3b547d89755d66fb50ae7828f2190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 43/89] fix: results of the Hub that are failures can be waited
 for

wait() raised the failures of tasks, the results did not become ready.
---
 ipyparallel/client/asyncresult.py | 41 ++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 980f174..a8b4096 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1162,6 +1162,24 @@ class AsyncHubResult(AsyncResult):
         """disable Future-based resolution of Hub results"""
         pass
 
+    def _pending_ids(self):
+        """Retrieve results that are ready, return the msg_ids of the rest"""
+
+        def missing():
+            return [m for m in self.msg_ids if m not in self._client.results]
+
+        remote_ids = missing()
+        if not remote_ids:
+            return []
+        try:
+            self._client.result_status(remote_ids, status_only=False)
+        except error.RemoteError:
+            # failed tasks have been retrieved as well,
+            # unless this is the failure of the request
+            if missing() == remote_ids:
+                raise
+        return missing()
+
     def wait(self, timeout=-1, return_when=None):
         """wait for result to complete."""
         start = time.perf_counter()
@@ -1172,25 +1190,20 @@ class AsyncHubResult(AsyncResult):
         local_ids = [m for m in self.msg_ids if m in self._client.outstanding]
         local_ready = self._client.wait(local_ids, timeout)
         if local_ready:
-            remote_ids = [m for m in self.msg_ids if m not in self._client.results]
-            if not remote_ids:
+            pending = self._pending_ids()
+            while pending and (
+                timeout is None or time.perf_counter() < start + timeout
+            ):
+                pending = self._pending_ids()
+                if pending:
+                    time.sleep(0.1)
+            if not pending:
                 self._ready = True
-            else:
-                rdict = self._client.result_status(remote_ids, status_only=False)
-                pending = rdict['pending']
-                while pending and (
-                    timeout is None or time.perf_counter() < start + timeout
-                ):
-                    rdict = self._client.result_status(remote_ids, status_only=False)
-                    pending = rdict['pending']
-                    if pending:
-                        time.sleep(0.1)
-                if not pending:
-                    self._ready = True
         if self._ready:
             self._output_ready = True
             try:
                 results = list(map(self._client.results.get, self.msg_ids))
+                self._raw_results = results
                 if self._single_result:
                     r = results[0]
                     if isinstance(r, Exception) and not self._return_exceptions:
-- 
2.43.0


From c6156a3b980eca07373964c8b969775260e74d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 44/89] fix: aborted tasks are errors when there are several
 results

---
 ipyparallel/error.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index d09144e..474235a 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -230,17 +230,17 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
     else:
         rlist = rdict_or_list
     for r in rlist:
-        if isinstance(r, RemoteError):
-            en, ev, etb, ei = r.ename, r.evalue, r.traceback, r.engine_info
-            # Sometimes we could have CompositeError in our list.  Just take
-            # the errors out of them and put them in our new list.  This
-            # has the effect of flattening lists of CompositeErrors into one
-            # CompositeError
-            if en == 'CompositeError':
-                for e in ev.elist:
-                    elist.append(e)
-            else:
-                elist.append((en, ev, etb, ei))
+        # Sometimes we could have CompositeError in our list.  Just take
+        # the errors out of them and put them in our new list.  This
+        # has the effect of flattening lists of CompositeErrors into one
+        # CompositeError
+        if isinstance(r, CompositeError):
+            elist.extend(r.elist)
+        elif isinstance(r, RemoteError):
+            elist.append((r.ename, r.evalue, r.traceback, r.engine_info))
+        elif isinstance(r, KernelError):
+            # e.g. TaskAborted, which is not raised by an engine
+            elist.append((r.__class__.__name__, str(r), None, {}))
     if len(elist) == 0:
         return rdict_or_list
     else:
-- 
2.43.0


From 4ad7f4a7bd556666f9ac4adaf64b0af319ebfbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 45/89] fix: errors of the client itself are errors when there
 are several results

---
 ipyparallel/client/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 4eccdff..a8ef90a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1014,10 +1014,10 @@ class Client(HasTraits):
                     self.results[msg_id] = serialize.deserialize_object(
                         msg['buffers']
                     )[0]
-            except Exception as e:
+            except Exception:
                 # the result cannot be loaded here: that is the result,
                 # nobody would ever be told otherwise
-                self.results[msg_id] = e
+                self.results[msg_id] = error.unwrap_exception(error.wrap_exception())
         elif content['status'] == 'aborted':
             self.results[msg_id] = error.TaskAborted(msg_id)
             out_future = self._output_futures.get(msg_id)
@@ -1323,6 +1323,7 @@ class Client(HasTraits):
             except Exception as e:
                 if not expect_reply:
                     raise
+                failure = error.unwrap_exception(error.wrap_exception())
                 # no reply is coming to a request that could not be sent
                 self.outstanding.discard(msg_id)
                 for msg_ids in list(self._outstanding_dict.values()):
@@ -1332,7 +1333,7 @@ class Client(HasTraits):
                 if msg_type in {'execute_request', 'apply_request'}:
                     # the results of tasks may be exceptions
                     futures[0].output.set_result(None)
-                    futures[0].set_result(e)
+                    futures[0].set_result(failure)
                 else:
                     futures[0].set_exception(e)
                 return
-- 
2.43.0


From 14bb22535c212b3be56c049ef4a2065a6253d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 46/89] fix: iterating over pending results of the Hub yields
 them

---
 ipyparallel/client/asyncresult.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index a8b4096..4200dff 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1180,6 +1180,12 @@ class AsyncHubResult(AsyncResult):
                 raise
         return missing()
 
+    def __iter__(self):
+        # there are no children to wait for one by one
+        if self._single_result:
+            raise TypeError("AsyncResults with a single result are not iterable.")
+        yield from self.get()
+
     def wait(self, timeout=-1, return_when=None):
         """wait for result to complete."""
         start = time.perf_counter()
-- 
2.43.0


From 1b21c14561b7c52856af71e0f33ecb6fb17c7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 47/89] fix: results without known targets can be joined

---
 ipyparallel/client/asyncresult.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 4200dff..64bd956 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -412,12 +412,17 @@ class AsyncResult(Future):
             # only one AsyncResult, nothing to join
             return first
 
+        # targets are not known if any of the results is load-balanced
+        targets = None
+        if all(ar._targets is not None for ar in async_results):
+            targets = list(chain(*(ar._targets for ar in async_results)))
+
         return cls(
             client=first._client,
             fname=first._fname,
             return_exceptions=first._return_exceptions,
             children=list(chain(*(ar._children for ar in async_results))),
-            targets=list(chain(*(ar._targets for ar in async_results))),
+            targets=targets,
             owner=False,
         )
 
-- 
2.43.0


From 1421df47f54cb928faba49a7d2280eb09d9b3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 48/89] fix: display all outputs when they are grouped by order

---
 ipyparallel/client/asyncresult.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 64bd956..0a97129 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1029,14 +1029,10 @@ class AsyncResult(Future):
 
             if not result_only:
                 if groupby == 'order':
-                    output_dict = {
-                        eid: outputs for eid, outputs in zip(targets, output_lists)
-                    }
                     N = max(len(outputs) for outputs in output_lists)
                     for i in range(N):
-                        for eid in targets:
-                            outputs = output_dict[eid]
-                            if len(outputs) >= N:
+                        for eid, outputs in zip(targets, output_lists):
+                            if len(outputs) > i:
                                 _raw_text(f'[output:{eid}]')
                                 self._republish_displaypub(outputs[i], eid)
                 else:
-- 
2.43.0


From 6ba928860ec3b33edf0f11a03a9d5cb38f1906e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 49/89] fix: requests of nested calls are recorded once in the
 history of a view

---
 ipyparallel/client/view.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 92d1083..688c11d 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -36,11 +36,14 @@ from .remotefunction import ParallelFunction, getname, parallel, remote
 def save_ids(f, self, *args, **kwargs):
     """Keep our history and outstanding attributes up to date after a method call."""
     n_previous = len(self.client.history)
+    n_own = len(self.history)
     try:
         ret = f(self, *args, **kwargs)
     finally:
         msg_ids = self.client.history[n_previous:]
-        self.history.extend(msg_ids)
+        # calls may be nested: don't record what is recorded already
+        recorded = set(self.history[n_own:])
+        self.history.extend(m for m in msg_ids if m not in recorded)
         self.outstanding.update(msg_ids)
     return ret
 
-- 
2.43.0


From 51244f9887fa63ef1951a05aed1ab6c948e6b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 50/89] fix: maps of direct views are in their history

---
 ipyparallel/client/remotefunction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 5b7a935..f79d482 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -295,6 +295,10 @@ class ParallelFunction(RemoteFunction):
             with view.temp_flags(block=False, **self.flags):
                 ar = view.apply(f, *args)
                 ar.owner = False
+            if view is not self.view:
+                # sent one engine at a time, but still requests of our view
+                self.view.history.extend(ar.msg_ids)
+                self.view.outstanding.update(ar.msg_ids)
 
             msg_id = ar.msg_ids[0]
             chunk_sizes[msg_id] = chunk_size
-- 
2.43.0


From 1cda17cc6cb5725a17506fd122abc47997cb3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 51/89] fix: maps of broadcast views that block by default

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 688c11d..ce2774d 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1182,7 +1182,7 @@ class BroadcastView(DirectView):
             scatter_chunk_sizes = ar._scatter_lengths
 
         # submit the map tasks as an actual broadcast
-        ar = self.apply(self._broadcast_map, f, *seq_names)
+        ar = self.apply_async(self._broadcast_map, f, *seq_names)
         ar.owner = False
         # re-wrap messages in an AsyncMapResult to get map API
         # this is where the 'gather' reconstruction happens
-- 
2.43.0


From d80126893ba38d00822a62ac9332733bdde3aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 52/89] fix: parallel functions of direct views use the flags
 of their view

---
 ipyparallel/client/remotefunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index f79d482..e0f2024 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -292,7 +292,9 @@ class ParallelFunction(RemoteFunction):
                 f = pf
 
             view = self.view if balanced else client[t]
-            with view.temp_flags(block=False, **self.flags):
+            flags = dict(track=self.view.track, label=self.view.label)
+            flags.update(self.flags, block=False)
+            with view.temp_flags(**flags):
                 ar = view.apply(f, *args)
                 ar.owner = False
             if view is not self.view:
-- 
2.43.0


From b611ceeec80007fafeb0ba3cf1dd626bc6b83cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 53/89] fix: gather ranges that were scattered as one sequence

---
 ipyparallel/client/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 25ed377..d145fff 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -68,7 +68,7 @@ class Map:
         if is_array(testObject):
             return numpy.concatenate(listOfPartitions)
         # Next try for Python sequence types
-        if isinstance(testObject, (list, tuple)):
+        if isinstance(testObject, (list, tuple, range)):
             return list(chain.from_iterable(listOfPartitions))
         # If we have scalars, just return listOfPartitions
         return listOfPartitions
@@ -89,7 +89,7 @@ class RoundRobinMap(Map):
         # First see if we have a known array type
         if is_array(testObject):
             return self.flatten_array(listOfPartitions)
-        if isinstance(testObject, (list, tuple)):
+        if isinstance(testObject, (list, tuple, range)):
             return self.flatten_list(listOfPartitions)
         return listOfPartitions
 
-- 
2.43.0


From fdd166d99ce5d29ad1f2d430efdf9764484b6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 54/89] fix: flags that the pure scheduler does not support are
 not ignored

---
 ipyparallel/client/view.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index ce2774d..2dc627b 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1406,17 +1406,6 @@ class LoadBalancedView(View):
                 msg += " disappearing engines."
             raise RuntimeError(msg)
 
-        if self._task_scheme == 'pure':
-            # pure zmq scheme doesn't support extra features
-            msg = "Pure ZMQ scheduler doesn't support the following flags:"
-            "follow, after, retries, targets, timeout"
-            if follow or after or retries or targets or timeout:
-                # hard fail on Scheduler flags
-                raise RuntimeError(msg)
-            if isinstance(f, dependent):
-                # soft warn on functional dependencies
-                warnings.warn(msg, RuntimeWarning)
-
         # build args
         args = [] if args is None else args
         kwargs = {} if kwargs is None else kwargs
@@ -1429,6 +1418,19 @@ class LoadBalancedView(View):
         targets = self.targets if targets is None else targets
         label = self.label if label is None else label
 
+        if self._task_scheme == 'pure':
+            # pure zmq scheme
+            msg = (
+                "Pure ZMQ scheduler doesn't support the following flags: "
+                "follow, after, retries, targets, timeout"
+            )
+            if follow or after or retries or targets or timeout:
+                # hard fail on Scheduler flags
+                raise RuntimeError(msg)
+            if isinstance(f, dependent):
+                # soft warn on functional dependencies
+                warnings.warn(msg, RuntimeWarning)
+
         if not isinstance(retries, int):
             raise TypeError(f'retries must be int, not {type(retries)!r}')
 
-- 
2.43.0


From 5e7a47dbbbb500015f85350d0dfd6a8b85174e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 55/89] fix: round-robin gather keeps the type of arrays

---
 ipyparallel/client/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index d145fff..1718b54 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -97,7 +97,7 @@ class RoundRobinMap(Map):
         test = listOfPartitions[0]
         shape = list(test.shape)
         shape[0] = sum(p.shape[0] for p in listOfPartitions)
-        A = numpy.ndarray(shape)
+        A = numpy.ndarray(shape, dtype=numpy.result_type(*listOfPartitions))
         N = shape[0]
         q = len(listOfPartitions)
         for p, part in enumerate(listOfPartitions):
-- 
2.43.0


From afb8a3ee2138ac5541859525c6290f55552c4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 56/89] fix: arrays nested in canned functions, classes and
 dependents can be pickled

---
 ipyparallel/serialize/canning.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index daadc65..fb9c86e 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -126,6 +126,18 @@ class CannedObject:
 
         self.buffers = []
 
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        if state.get("buffers"):
+            # memoryviews cannot be pickled
+            # those left here are nested in another canned object,
+            # e.g. the default values of a function
+            state["buffers"] = [
+                buf.tobytes() if isinstance(buf, memoryview) else buf
+                for buf in state["buffers"]
+            ]
+        return state
+
     def get_object(self, g=None):
         if g is None:
             g = {}
-- 
2.43.0


From 9a5e90afc4c1c8b4cfd23219b56cb535365e81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 57/89] fix: do not mix up the buffers of the elements of a set

---
 ipyparallel/serialize/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 327339b..6c53fe7 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -98,8 +98,11 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
     buffers = []
     if istype(obj, sequence_types) and len(obj) < item_threshold:
         cobj = can_sequence(obj)
-        for c in cobj:
-            buffers.extend(_extract_buffers(c, buffer_threshold))
+        if not istype(obj, set):
+            # the order of a set is not preserved by pickle,
+            # so buffers extracted from its elements could not be matched
+            for c in cobj:
+                buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
         cobj = {}
         for k in sorted(obj):
-- 
2.43.0


From 6a7f5ff0197a9400ee4bedefc9c888b2cf9d1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 58/89] fix: serialize dicts with keys that cannot be sorted

---
 ipyparallel/serialize/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 6c53fe7..e305b0e 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -105,7 +105,7 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
                 buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
         cobj = {}
-        for k in sorted(obj):
+        for k in obj:
             c = can(obj[k])
             buffers.extend(_extract_buffers(c, buffer_threshold))
             cobj[k] = c
@@ -138,7 +138,7 @@ def deserialize_object(buffers, g=None):
         newobj = uncan_sequence(canned, g)
     elif istype(canned, dict) and len(canned) < MAX_ITEMS:
         newobj = {}
-        for k in sorted(canned):
+        for k in canned:
             c = canned[k]
             _restore_buffers(c, bufs)
             newobj[k] = uncan(c, g)
-- 
2.43.0


From 1795cd304c5ec5b70a5e4f99abf3b70343500199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 59/89] fix: resolve references in keyword-only defaults

---
 ipyparallel/serialize/canning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index fb9c86e..2a4fe69 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -231,11 +231,11 @@ class CannedFunction(CannedObject):
             defaults = None
 
         if self.kwdefaults:
-            kwdefaults = uncan_dict(self.kwdefaults)
+            kwdefaults = uncan_dict(self.kwdefaults, g)
         else:
             kwdefaults = None
         if self.annotations:
-            annotations = uncan_dict(self.annotations)
+            annotations = uncan_dict(self.annotations, g)
         else:
             annotations = {}
 
-- 
2.43.0


From f162f4474202e1a736a739a7dc2b882fbcc5bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 60/89] fix: interactive functions keep their keyword-only
 defaults

---
 ipyparallel/serialize/canning.py | 2 ++
 ipyparallel/util.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 2a4fe69..c0b9bdb 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -42,12 +42,14 @@ def interactive(f):
     # interactive functions never have closures, that's kind of the point
     if isinstance(f, FunctionType):
         mainmod = __import__('__main__')
+        kwdefaults = f.__kwdefaults__
         f = FunctionType(
             f.__code__,
             mainmod.__dict__,
             f.__name__,
             f.__defaults__,
         )
+        f.__kwdefaults__ = kwdefaults
     # associate with __main__ for uncanning
     f.__module__ = '__main__'
     return f
diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 7a67598..300a6f0 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -293,12 +293,14 @@ def interactive(f):
     # interactive functions never have closures, that's kind of the point
     if isinstance(f, FunctionType):
         mainmod = __import__('__main__')
+        kwdefaults = f.__kwdefaults__
         f = FunctionType(
             f.__code__,
             mainmod.__dict__,
             f.__name__,
             f.__defaults__,
         )
+        f.__kwdefaults__ = kwdefaults
     # associate with __main__ for uncanning
     f.__module__ = '__main__'
     return f
-- 
2.43.0


From 3b3516090ad828222e6aa227574539309e08fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 61/89] fix: arrays of any dtype can be serialized

---
 ipyparallel/serialize/canning.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index c0b9bdb..72d267b 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -335,26 +335,27 @@ class CannedArray(CannedObject):
         from numpy import ascontiguousarray
 
         self.shape = obj.shape
-        self.dtype = obj.dtype.descr if obj.dtype.fields else obj.dtype.str
+        # the description of a structured dtype does not preserve padding
+        self.dtype = obj.dtype if obj.dtype.fields else obj.dtype.str
         self.pickled = False
-        if sum(obj.shape) == 0:
+        if obj.size == 0:
             self.pickled = True
-        elif obj.dtype == 'O':
+        elif obj.dtype.hasobject:
             # can't handle object dtype with buffer approach
             self.pickled = True
-        elif obj.dtype.fields and any(
-            dt == 'O' for dt, sz in obj.dtype.fields.values()
-        ):
-            self.pickled = True
+        else:
+            # ensure contiguous
+            contiguous = ascontiguousarray(obj, dtype=None)
+            try:
+                self.buffers = [memoryview(contiguous)]
+            except ValueError:
+                # not every dtype has a buffer, e.g. datetime64
+                self.pickled = True
         if self.pickled:
             # just pickle it
             from . import serialize
 
             self.buffers = [serialize.pickle.dumps(obj, serialize.PICKLE_PROTOCOL)]
-        else:
-            # ensure contiguous
-            obj = ascontiguousarray(obj, dtype=None)
-            self.buffers = [memoryview(obj)]
 
     def get_object(self, g=None):
         from numpy import frombuffer
-- 
2.43.0


From 726927da2f367b41f25013e50fd5d17912f105d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 62/89] fix: deserialize containers according to the limit of
 the sender

---
 ipyparallel/serialize/serialize.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index e305b0e..ad88cd8 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -74,6 +74,14 @@ def _restore_buffers(obj, buffers):
                 obj.buffers[i] = buffers.pop(0)
 
 
+def _has_canned(items):
+    """Whether to look for canned objects in the items of a container
+
+    The item threshold of the sender may be larger than ours.
+    """
+    return len(items) < MAX_ITEMS or any(isinstance(c, CannedObject) for c in items)
+
+
 def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
     """Serialize an object into a list of sendable buffers.
 
@@ -132,11 +140,11 @@ def deserialize_object(buffers, g=None):
     bufs = list(buffers)
     pobj = bufs.pop(0)
     canned = pickle.loads(pobj)
-    if istype(canned, sequence_types) and len(canned) < MAX_ITEMS:
+    if istype(canned, sequence_types) and _has_canned(canned):
         for c in canned:
             _restore_buffers(c, bufs)
         newobj = uncan_sequence(canned, g)
-    elif istype(canned, dict) and len(canned) < MAX_ITEMS:
+    elif istype(canned, dict) and _has_canned(canned.values()):
         newobj = {}
         for k in canned:
             c = canned[k]
-- 
2.43.0


From c70085099f7f981e98f21ba0ce29c880e135ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 63/89] fix: result_status finds every local result, and each
 result once

---
 ipyparallel/client/asyncresult.py | 5 +++--
 ipyparallel/client/client.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 0a97129..bccd8cb 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1224,8 +1224,9 @@ class AsyncHubResult(AsyncResult):
                 self.set_exception(e)
             finally:
                 if self.owner:
-                    [self._client.metadata.pop(mid) for mid in self.msg_ids]
-                    [self._client.results.pop(mid) for mid in self.msg_ids]
+                    # the same task may have been asked for more than once
+                    [self._client.metadata.pop(mid, None) for mid in self.msg_ids]
+                    [self._client.results.pop(mid, None) for mid in self.msg_ids]
 
         return self._ready
 
diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index a8ef90a..7766e62 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2257,13 +2257,14 @@ class Client(HasTraits):
             be lists of msg_ids that are incomplete or complete. If `status_only`
             is False, then completed results will be keyed by their `msg_id`.
         """
-        theids = self._msg_ids_from_jobs(msg_ids)
+        # each one once
+        theids = list(dict.fromkeys(self._msg_ids_from_jobs(msg_ids)))
 
         completed = []
         local_results = {}
 
         # comment this block out to temporarily disable local shortcut:
-        for msg_id in theids:
+        for msg_id in list(theids):
             if msg_id in self.results:
                 completed.append(msg_id)
                 local_results[msg_id] = self.results[msg_id]
-- 
2.43.0


From 9fb2b4573152e87c58a14f21c3976250a277374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 64/89] fix: queue_status of an engine counted from the end

---
 ipyparallel/client/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 7766e62..56333d9 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2360,7 +2360,8 @@ class Client(HasTraits):
             raise self._unwrap_exception(content)
         content = util.int_keys(content)
         if isinstance(targets, int):
-            return content[targets]
+            # may have been negative
+            return content[engine_ids[0]]
         else:
             return content
 
-- 
2.43.0


From ed8401b72e2fe9e6bff2643a7be767612a03bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 65/89] fix: purging jobs with targets=None

---
 ipyparallel/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 56333d9..fd001f7 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2524,6 +2524,8 @@ class Client(HasTraits):
             raise ValueError("Must specify at least one of `targets` and `jobs`")
         if targets or targets == 0:
             targets = self._build_targets(targets)[1]
+        else:
+            targets = []
 
         # construct msg_ids from jobs
         if jobs == 'all':
-- 
2.43.0


From 1d6791391fcd7e9e47800796171d71f02e58aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:03 +0000
Subject: [PATCH 66/89] fix: abort without anything to abort leaves the
 requests of others alone

---
 ipyparallel/client/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index fd001f7..1c0ca4b 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1789,6 +1789,11 @@ class Client(HasTraits):
                 msg_ids.extend(j.msg_ids)
             else:
                 msg_ids.append(j)
+        if not msg_ids:
+            # nothing to abort:
+            # engines abort everything when they are not told what to abort,
+            # including the requests of other clients
+            targets = []
         content = dict(msg_ids=msg_ids)
 
         return self._send_control_request(
-- 
2.43.0


From c25f53e6d974d35e644ba565f6a9a950c4451831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:46 +0000
Subject: [PATCH 67/89] fix: requests survive an abort that arrives while
 another one runs

---
 ipyparallel/engine/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index de0b4d5..0a6d939 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -231,9 +231,9 @@ class IPythonParallelKernel(IPythonKernel):
         if isinstance(msg_ids, str):
             msg_ids = [msg_ids]
         if not msg_ids:
-            f = self._abort_queues()
-            if inspect.isawaitable(f):
-                asyncio.ensure_future(f)
+            # requests arrive here on the control thread,
+            # but only the main thread may use the shell stream
+            self.io_loop.add_callback(self._abort_queues)
         for mid in msg_ids or []:
             self.aborted.add(str(mid))
 
-- 
2.43.0


From a80d8c66b854d75f612e04dff40cc1a353af26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 68/89] fix: connecting to a pure scheduler after engines have
 left

there is no task socket then, and no stream for it.
---
 ipyparallel/client/client.py | 7 +++++--
 ipyparallel/client/view.py   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 1c0ca4b..0686ddf 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1059,8 +1059,11 @@ class Client(HasTraits):
         self._control_stream.on_recv(self._dispatch_single_reply, copy=False)
         self._mux_stream = ZMQStream(self._mux_socket, self._io_loop)
         self._mux_stream.on_recv(self._dispatch_reply, copy=False)
-        self._task_stream = ZMQStream(self._task_socket, self._io_loop)
-        self._task_stream.on_recv(self._dispatch_reply, copy=False)
+        # there is no task socket if pure scheduling was stopped while connecting
+        self._task_stream = None
+        if self._task_socket is not None:
+            self._task_stream = ZMQStream(self._task_socket, self._io_loop)
+            self._task_stream.on_recv(self._dispatch_reply, copy=False)
         self._iopub_stream = ZMQStream(self._iopub_socket, self._io_loop)
         self._iopub_stream.on_recv(self._dispatch_iopub, copy=False)
         self._notification_stream = ZMQStream(self._notification_socket, self._io_loop)
diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 2dc627b..131ff0c 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1399,7 +1399,7 @@ class LoadBalancedView(View):
         """
 
         # validate whether we can run
-        if self._socket.closed():
+        if self._socket is None or self._socket.closed():
             msg = "Task farming is disabled"
             if self._task_scheme == 'pure':
                 msg += " because the pure ZMQ scheduler cannot handle"
-- 
2.43.0


From 80c951e5ae07dddc6fe7e517ff833ee4ffa7032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:07 +0000
Subject: [PATCH 69/89] fix: all targets of a request are those of one moment

engines come and go in the io thread: while ids were looked up one by one,
the idents and the ids of the targets could come apart.
---
 ipyparallel/client/client.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0686ddf..c10f701 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -662,9 +662,11 @@ class Client(HasTraits):
         """Update our engines dict and _ids from a dict of the form: {id:uuid}."""
         for k, v in engines.items():
             eid = int(k)
-            if eid not in self._engines:
-                self._ids.append(eid)
+            new = eid not in self._engines
+            # before its id, which targets are looked up with in other threads
             self._engines[eid] = v
+            if new:
+                self._ids.append(eid)
         self._ids = sorted(self._ids)
         if (
             sorted(self._engines.keys()) != list(range(len(self._engines)))
@@ -701,11 +703,12 @@ class Client(HasTraits):
                     "Can't build targets without any engines"
                 )
 
+        # engines come and go in the io thread: all targets are those of one moment
         if targets is None:
-            targets = self._ids
+            targets = self.ids
         elif isinstance(targets, str):
             if targets.lower() == 'all':
-                targets = self._ids
+                targets = self.ids
             else:
                 raise TypeError(f"{targets!r} not valid str target, must be 'all'")
         elif isinstance(targets, int):
@@ -716,8 +719,8 @@ class Client(HasTraits):
             targets = [targets]
 
         if isinstance(targets, slice):
-            indices = list(range(len(self._ids))[targets])
             ids = self.ids
+            indices = list(range(len(ids))[targets])
             targets = [ids[i] for i in indices]
 
         if not isinstance(targets, (tuple, list, range)):
-- 
2.43.0


From fa176a21e5cac30111077fc857beba235d978e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 70/89] fix: encrypt a client's channels through ssh tunnels

---
 ipyparallel/client/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index c10f701..02001f4 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -743,6 +743,10 @@ class Client(HasTraits):
             if self._ssh:
                 from zmq.ssh import tunnel
 
+                if self.curve_serverkey:
+                    s.curve_serverkey = self.curve_serverkey
+                    s.curve_secretkey = self.curve_secretkey
+                    s.curve_publickey = self.curve_publickey
                 return tunnel.tunnel_connection(s, url, sshserver, **ssh_kwargs)
             else:
                 return util.connect(
-- 
2.43.0


From 87d7a5641e03c4bb2f2e22f45cd5a4f1ce51a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 71/89] fix: no encrypted heartbeats if encryption is not
 enabled

---
 ipyparallel/controller/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index daf242c..34ad729 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -870,8 +870,8 @@ class IPController(BaseParallelApplication):
                 monitor_url=disambiguate_url(self.monitor_url),
                 config=hm_config,
                 log_level=self.log.getEffectiveLevel(),
-                curve_publickey=self.curve_publickey,
-                curve_secretkey=self.curve_secretkey,
+                curve_publickey=self.curve_publickey if self.enable_curve else None,
+                curve_secretkey=self.curve_secretkey if self.enable_curve else None,
             ),
             daemon=True,
         )
-- 
2.43.0


From e30ebe2e8d968dbff7c5264db6a621177522f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 72/89] fix: reused connection files have the CURVE key of the
 controller

---
 ipyparallel/controller/app.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 34ad729..5736f19 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -692,8 +692,9 @@ class IPController(BaseParallelApplication):
         with open(fname) as f:
             ecfg = json.loads(f.read())
 
-        # json gives unicode, Session.key wants bytes
-        c.Session.key = ecfg['key'].encode('ascii')
+        if ecfg['key'] or self._uses_curve_key(ecfg):
+            # json gives unicode, Session.key wants bytes
+            c.Session.key = ecfg['key'].encode('ascii')
 
         xport, ip = ecfg['interface'].split('://')
 
@@ -749,8 +750,16 @@ class IPController(BaseParallelApplication):
                 self.log.error(f"Could not load config from JSON: {e}")
             else:
                 # successfully loaded config from JSON, and reuse=True
-                # no need to write back the same file
-                self.write_connection_files = False
+                # no need to write back the same file,
+                # unless it has another CURVE key than this controller
+                self.write_connection_files = not self._uses_curve_key(
+                    self.engine_info
+                )
+
+    def _uses_curve_key(self, info):
+        """Does this connection info have the CURVE key of this controller, if any?"""
+        key = self.curve_publickey.decode("ascii") if self.enable_curve else None
+        return info.get('curve_serverkey') == key
 
     def init_hub(self):
         if self.enable_curve:
-- 
2.43.0


From c1371d38c3c4051fa83a50836b66ff3e7ffaae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 73/89] fix: SQLite records have all columns when no keys are
 asked for

---
 ipyparallel/controller/sqlitedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 85a79ad..aea52a9 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -460,7 +460,8 @@ class SQLiteDB(BaseDB):
         matches = cursor.fetchall()
         records = []
         for line in matches:
-            rec = self._list_to_dict(line, keys)
+            # no keys means every column, as in the query
+            rec = self._list_to_dict(line, keys or None)
             records.append(rec)
         return records
 
-- 
2.43.0


From 7cf48a1af1a44a1c3d489da1efd1f9031175bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:16 +0000
Subject: [PATCH 74/89] fix: Client(url_file=...) connects with that file

---
 ipyparallel/client/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 02001f4..de8c7f7 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -391,7 +391,6 @@ class Client(HasTraits):
         self,
         connection_info=None,
         *,
-        url_file=None,
         profile=None,
         profile_dir=None,
         ipython_dir=None,
@@ -414,8 +413,9 @@ class Client(HasTraits):
             self._context = context
 
         for argname in ('url_or_file', 'url_file'):
-            if argname in extra_args:
-                connection_info = extra_args[argname]
+            value = extra_args.pop(argname, None)
+            if value is not None:
+                connection_info = value
                 warnings.warn(
                     f"{argname} arg no longer supported, use positional connection_info argument",
                     DeprecationWarning,
-- 
2.43.0


From 45ceed3342eeb5f05ee7fb1975b45b73dd0373f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:16 +0000
Subject: [PATCH 75/89] fix: clean_cluster_files goes on without a log when a
 file cannot be removed

---
 ipyparallel/cluster/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 1b30630..507b056 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -1066,7 +1066,8 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
         try:
             os.remove(f)
         except OSError as e:
-            log.error(f"Error removing {f}: {e}")
+            if log:
+                log.error(f"Error removing {f}: {e}")
 
     for profile_dir in profile_dirs:
         if log:
-- 
2.43.0


From c69a8abdc5de357a2bc8d9d4dafe7c64626d4b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:22 +0000
Subject: [PATCH 76/89] fix: a cluster whose context fails to start or stop
 does not leave its controller running

---
 ipyparallel/cluster/cluster.py | 38 +++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 507b056..b26101a 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -895,26 +895,40 @@ class Cluster(AsyncFirst, LoggingConfigurable):
     _context_client = None
 
     async def __aenter__(self):
-        client = self._context_client = await self.start_and_connect()
+        try:
+            client = self._context_client = await self.start_and_connect()
+        except BaseException:
+            # __aexit__ won't be called, don't leave a partial cluster running
+            await self.stop_cluster()
+            raise
         return client
 
     async def __aexit__(self, *args):
-        if self._context_client is not None:
-            self._context_client.close()
-            self._context_client = None
-        await self.stop_engines()
-        await self.stop_controller()
+        try:
+            if self._context_client is not None:
+                self._context_client.close()
+                self._context_client = None
+            await self.stop_engines()
+        finally:
+            await self.stop_controller()
 
     def __enter__(self):
-        client = self._context_client = self.start_and_connect_sync()
+        try:
+            client = self._context_client = self.start_and_connect_sync()
+        except BaseException:
+            # __exit__ won't be called, don't leave a partial cluster running
+            self.stop_cluster_sync()
+            raise
         return client
 
     def __exit__(self, *args):
-        if self._context_client:
-            self._context_client.close()
-            self._context_client = None
-        self.stop_engines_sync()
-        self.stop_controller_sync()
+        try:
+            if self._context_client:
+                self._context_client.close()
+                self._context_client = None
+            self.stop_engines_sync()
+        finally:
+            self.stop_controller_sync()
 
 
 class ClusterManager(LoggingConfigurable):
-- 
2.43.0


From 7c808ddda1e3b4ca728b46fc93991e72b680afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:15 +0000
Subject: [PATCH 77/89] fix: ipcluster start does not take a stopped cluster's
 file for a running cluster

---
 ipyparallel/cluster/app.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 13c92b3..0e171ae 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -598,13 +598,15 @@ class IPClusterStart(IPClusterEngines):
                     f"Error loading cluster from file {cluster_file}: {e}. Assuming stopped cluster."
                 )
             else:
-                self.log.critical(
-                    f'Cluster is already running at {self.cluster.cluster_file}. '
-                    'use `ipcluster stop` to stop the cluster.'
-                )
-                # Here I exit with a unusual exit status that other processes
-                # can watch for to learn how I existed.
-                self.exit(ALREADY_STARTED)
+                if cluster._is_running():
+                    self.log.critical(
+                        f'Cluster is already running at {self.cluster.cluster_file}. '
+                        'use `ipcluster stop` to stop the cluster.'
+                    )
+                    # Here I exit with a unusual exit status that other processes
+                    # can watch for to learn how I existed.
+                    self.exit(ALREADY_STARTED)
+                self.log.warning(f"Ignoring stopped cluster from file {cluster_file}")
 
         # Now log and daemonize
         self.log.info(f'Starting ipcluster with [daemonize={self.daemonize!r}]')
-- 
2.43.0


From 12bbdd3a979db3904632cbea3fc48f4950a4caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:53 +0000
Subject: [PATCH 78/89] fix: SSHEngineSetLauncher does not remove n from the
 config of its hosts

---
 ipyparallel/cluster/launcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 325858e..6943e8a 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1490,7 +1490,8 @@ class SSHEngineSetLauncher(LocalEngineSetLauncher, SSHLauncher):
         started_n = 0
         for host, n_or_config in self.engines.items():
             if isinstance(n_or_config, dict):
-                overrides = n_or_config
+                # copy, to leave the config as it is for the next start
+                overrides = dict(n_or_config)
                 n = overrides.pop("n", 1)
             else:
                 overrides = {}
-- 
2.43.0


From fa57c2082953a56718d5cb3bf4866929d13d65e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:53 +0000
Subject: [PATCH 79/89] fix: directories for fetched files are accessible to
 their owner

---
 ipyparallel/cluster/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 6943e8a..f2d0328 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1288,7 +1288,7 @@ class SSHLauncher(LocalProcessLauncher):
             else:
                 raise ValueError(f"cmd_exists expects bool, got {check!r}")
         local_dir = os.path.dirname(local)
-        ensure_dir_exists(local_dir, 700)
+        ensure_dir_exists(local_dir, 0o700)
         check_output(self.scp_cmd + self.scp_args + [full_remote, local])
 
     def fetch_files(self):
-- 
2.43.0


From d15e2838fe68ab61884809271847cf88361e2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:53 +0000
Subject: [PATCH 80/89] fix: LSF jobs are submitted with the environment of
 their cluster

---
 ipyparallel/cluster/launcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index f2d0328..feb7773 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2286,7 +2286,9 @@ class LSFLauncher(BatchSystemLauncher):
         self.write_batch_script(n)
         piped_cmd = self.args[0] + '<"' + self.args[1] + '"'
         self.log.debug("Starting %s: %s", self.__class__.__name__, piped_cmd)
-        p = Popen(piped_cmd, shell=True, env=os.environ, stdout=PIPE)
+        env = os.environ.copy()
+        env.update(self.get_env())
+        p = Popen(piped_cmd, shell=True, env=env, stdout=PIPE)
         output, err = p.communicate()
         output = output.decode("utf8", 'replace')
         job_id = self.parse_job_id(output)
-- 
2.43.0


From 22bce964ee1cb458d138dc98711418a20b5ad7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:53 +0000
Subject: [PATCH 81/89] fix: the submit command of LSF may have options

---
 ipyparallel/cluster/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index feb7773..1c871ff 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2284,7 +2284,7 @@ class LSFLauncher(BatchSystemLauncher):
         # Here we save profile_dir in the context so they
         # can be used in the batch script template as {profile_dir}
         self.write_batch_script(n)
-        piped_cmd = self.args[0] + '<"' + self.args[1] + '"'
+        piped_cmd = shlex_join(self.submit_command) + '<"' + self.batch_file + '"'
         self.log.debug("Starting %s: %s", self.__class__.__name__, piped_cmd)
         env = os.environ.copy()
         env.update(self.get_env())
-- 
2.43.0


From 83346498cbd2685b578149eaaf154cc14f825c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:00 +0000
Subject: [PATCH 82/89] fix: the port of an SSH host is not used for the other
 hosts

---
 ipyparallel/cluster/launcher.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 1c871ff..d05acf4 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1304,12 +1304,11 @@ class SSHLauncher(LocalProcessLauncher):
         if user is not None:
             self.user = user
         if port is not None:
+            # new lists: the old ones may be shared with the launchers of other hosts
             if '-p' not in self.ssh_args:
-                self.ssh_args.append('-p')
-                self.ssh_args.append(str(port))
+                self.ssh_args = self.ssh_args + ['-p', str(port)]
             if '-P' not in self.scp_args:
-                self.scp_args.append('-P')
-                self.scp_args.append(str(port))
+                self.scp_args = self.scp_args + ['-P', str(port)]
 
         # do some checks that setting are correct
         shell_info = self.ssh_sender.get_shell_info()
-- 
2.43.0


From e534a508bc93940241246255640921eaff934593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:35 +0000
Subject: [PATCH 83/89] fix: a sync call whose coroutine is cancelled does not
 wait forever

---
 ipyparallel/_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/_async.py b/ipyparallel/_async.py
index 489f53c..372559e 100644
--- a/ipyparallel/_async.py
+++ b/ipyparallel/_async.py
@@ -52,7 +52,8 @@ class AsyncFirst:
         async def thread_callback():
             try:
                 future.set_result(await async_f(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:
+                # including CancelledError: the caller is waiting for the future
                 future.set_exception(e)
 
         self._thread_loop.add_callback(thread_callback)
-- 
2.43.0


From 8d52222663ae7e2905b1f90cef6f7630d26681c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:03 +0000
Subject: [PATCH 84/89] fix: the command line of ipyparallel.shellcmd can be
 used

---
 ipyparallel/shellcmd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/shellcmd.py b/ipyparallel/shellcmd.py
index 3f76c72..79df217 100644
--- a/ipyparallel/shellcmd.py
+++ b/ipyparallel/shellcmd.py
@@ -12,11 +12,12 @@ Currently the following command are supported:
 * remove:  removes a file
 """
 
+import json
 import os
 import sys
 from argparse import ArgumentParser
 
-from .cluster.shellcmd import ShellCommandReceive
+from .cluster.shellcmd_receive import ShellCommandReceive
 
 
 def main():
@@ -34,7 +35,9 @@ def main():
     parser_start = subparsers.add_parser(
         'start', help='start a process into background'
     )
-    parser_start.add_argument('--env', help='optional environment dictionary')
+    parser_start.add_argument(
+        '--env', type=json.loads, help='optional environment dictionary (as JSON)'
+    )
     parser_start.add_argument(
         '--output_file', help='optional output redirection (for stdout and stderr)'
     )
@@ -73,6 +76,9 @@ def main():
 
     args = parser.parse_args()
     cmd = args.__dict__.pop('cmd')
+    if cmd == 'start':
+        # the name 'cmd' is taken by the sub-command
+        args.cmd = args.__dict__.pop('start_cmd')
 
     if args.debug:
         with open("sys_arg.txt", "a") as f:
-- 
2.43.0


From 5ecea54cb0be0bad158644c90cca63fc91da97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:03 +0000
Subject: [PATCH 85/89] fix: a process can be killed by shell command without
 naming a signal

---
 ipyparallel/cluster/shellcmd_receive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/shellcmd_receive.py b/ipyparallel/cluster/shellcmd_receive.py
index 54848b6..fa41b9c 100644
--- a/ipyparallel/cluster/shellcmd_receive.py
+++ b/ipyparallel/cluster/shellcmd_receive.py
@@ -12,6 +12,7 @@ packages. Hence, DO NOT USE ANY ipyparallel IMPORTS IN THIS FILE!
 import logging
 import os
 import shutil
+import signal
 import sys
 from abc import ABCMeta, abstractmethod
 from contextlib import contextmanager
@@ -240,7 +241,7 @@ class ShellCommandReceivePosix(ShellCommandReceiveBase):
 
     def cmd_kill(self, pid, sig=None):
         self._log(f"Kill pid {pid} (signal={sig})")
-        os.kill(pid, sig)
+        os.kill(pid, signal.SIGTERM if sig is None else sig)
 
 
 @contextmanager
-- 
2.43.0


From affc0bb0ca318ad4deccb447dac5215c66723653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:07 +0000
Subject: [PATCH 86/89] fix: an engine can forward its log to log_url

---
 ipyparallel/engine/log.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/engine/log.py b/ipyparallel/engine/log.py
index cdad377..55a3e76 100644
--- a/ipyparallel/engine/log.py
+++ b/ipyparallel/engine/log.py
@@ -18,3 +18,7 @@ class EnginePUBHandler(PUBHandler):
             return f"engine.{self.engine.id}"
         else:
             return "engine"
+
+    @root_topic.setter
+    def root_topic(self, value):
+        """PUBHandler.__init__ sets it: ours is always that of the engine"""
-- 
2.43.0


From ce63daee1b8d8793d29c6b71c7ef3144a144c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:07 +0000
Subject: [PATCH 87/89] fix: iplogger can subscribe, read messages and their
 levels

---
 ipyparallel/apps/logwatcher.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/ipyparallel/apps/logwatcher.py b/ipyparallel/apps/logwatcher.py
index 89c40a3..58323a0 100644
--- a/ipyparallel/apps/logwatcher.py
+++ b/ipyparallel/apps/logwatcher.py
@@ -33,6 +33,9 @@ class LogWatcher(LoggingConfigurable):
     # internals
     stream = Instance('zmq.eventloop.zmqstream.ZMQStream', allow_none=True)
 
+    # topics the stream is subscribed to
+    _subscribed = List()
+
     context = Instance(zmq.Context)
 
     def _context_default(self):
@@ -59,40 +62,35 @@ class LogWatcher(LoggingConfigurable):
 
     def subscribe(self):
         """Update our SUB socket's subscriptions."""
-        self.stream.setsockopt(zmq.UNSUBSCRIBE, '')
-        if '' in self.topics:
-            self.log.debug("Subscribing to: everything")
-            self.stream.setsockopt(zmq.SUBSCRIBE, '')
-        else:
-            for topic in self.topics:
-                self.log.debug(f"Subscribing to: {topic!r}")
-                self.stream.setsockopt(zmq.SUBSCRIBE, topic)
+        for topic in self._subscribed:
+            self.stream.setsockopt(zmq.UNSUBSCRIBE, topic.encode('utf8'))
+        self._subscribed = [''] if '' in self.topics else list(self.topics)
+        for topic in self._subscribed:
+            self.log.debug(f"Subscribing to: {topic or 'everything'!r}")
+            self.stream.setsockopt(zmq.SUBSCRIBE, topic.encode('utf8'))
 
     def _extract_level(self, topic_str):
         """Turn 'engine.0.INFO.extra' into (logging.INFO, 'engine.0.extra')"""
         topics = topic_str.split('.')
         for idx, t in enumerate(topics):
-            level = getattr(logging, t, None)
-            if level is not None:
+            level = logging.getLevelName(t)
+            if isinstance(level, int):
+                topics.pop(idx)
                 break
-
-        if level is None:
-            level = logging.INFO
         else:
-            topics.pop(idx)
+            level = logging.INFO
 
         return level, '.'.join(topics)
 
     def log_message(self, raw):
         """receive and parse a message, then log it."""
-        if len(raw) != 2 or '.' not in raw[0]:
+        if len(raw) != 2 or b'.' not in raw[0]:
             self.log.error(f"Invalid log message: {raw}")
             return
         else:
-            topic, msg = raw
+            topic, msg = (frame.decode('utf8', 'replace') for frame in raw)
             # don't newline, since log messages always newline:
-            topic, level_name = topic.rsplit('.', 1)
             level, topic = self._extract_level(topic)
-            if msg[-1] == '\n':
+            if msg.endswith('\n'):
                 msg = msg[:-1]
             self.log.log(level, f"[{topic}] {msg}")
-- 
2.43.0


From 617d9570b077dd28a60183a31976555dc77e7218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:01 +0000
Subject: [PATCH 88/89] fix: clean_logs finds the log files that log_to_file
 writes

---
 ipyparallel/apps/baseapp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/apps/baseapp.py b/ipyparallel/apps/baseapp.py
index a3fd27c..6e4ae67 100644
--- a/ipyparallel/apps/baseapp.py
+++ b/ipyparallel/apps/baseapp.py
@@ -184,8 +184,9 @@ class BaseParallelApplication(BaseIPythonApplication):
         # Remove old log files
         log_dir = self.profile_dir.log_dir
         if self.clean_logs:
+            prefix = re.escape(f"{self.name}-{self.cluster_id}-")
             for f in os.listdir(log_dir):
-                if re.match(rf'{self.name}-\d+\.(log|err|out)', f):
+                if re.match(rf'{prefix}\d+\.(log|err|out)', f):
                     try:
                         os.remove(os.path.join(log_dir, f))
                     except OSError:
-- 
2.43.0


From 22b5763a603613a71801b9804a94eb4a7881a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:19 +0000
Subject: [PATCH 89/89] fix: a joblib context of the default view can run more
 than once

---
 ipyparallel/client/_joblib.py | 64 ++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/ipyparallel/client/_joblib.py b/ipyparallel/client/_joblib.py
index 92b5d03..c336c9a 100644
--- a/ipyparallel/client/_joblib.py
+++ b/ipyparallel/client/_joblib.py
@@ -14,47 +14,57 @@ class IPythonParallelBackend(AutoBatchingMixin, ParallelBackendBase):
         self._client_owner = False
         if view is None:
             self._client_owner = True
-            try:
-                # load the default cluster
-                cluster = ipp.Cluster.from_file()
-            except FileNotFoundError:
-                # other load errors?
-                cluster = self._cluster = ipp.Cluster()
-                self._cluster_owner = True
-                cluster.start_cluster_sync()
-            else:
-                # cluster running, ensure some engines are, too
-                if not cluster.engines:
-                    cluster.start_engines_sync()
-            rc = cluster.connect_client_sync()
-            rc.wait_for_engines(cluster.n or 1)
-            view = rc.load_balanced_view()
+            view = self._default_view()
+        self._view = view
 
-            # use cloudpickle or dill for closures, if available.
-            # joblib tends to create closures default pickle can't handle.
+    def _default_view(self):
+        """Connect to the default cluster, starting it if needed"""
+        try:
+            # load the default cluster
+            cluster = ipp.Cluster.from_file()
+        except FileNotFoundError:
+            # other load errors?
+            cluster = self._cluster = ipp.Cluster()
+            self._cluster_owner = True
+            cluster.start_cluster_sync()
+        else:
+            # cluster running, ensure some engines are, too
+            if not cluster.engines:
+                cluster.start_engines_sync()
+        rc = cluster.connect_client_sync()
+        rc.wait_for_engines(cluster.n or 1)
+        view = rc.load_balanced_view()
+
+        # use cloudpickle or dill for closures, if available.
+        # joblib tends to create closures default pickle can't handle.
+        try:
+            import cloudpickle  # noqa
+        except ImportError:
             try:
-                import cloudpickle  # noqa
+                import dill  # noqa
             except ImportError:
-                try:
-                    import dill  # noqa
-                except ImportError:
-                    pass
-                else:
-                    view.client[:].use_dill()
+                pass
             else:
-                view.client[:].use_cloudpickle()
-        self._view = view
+                view.client[:].use_dill()
+        else:
+            view.client[:].use_cloudpickle()
+        return view
 
     def effective_n_jobs(self, n_jobs):
         """A View can run len(view) jobs at a time"""
+        if self._view is None:
+            # used again after terminate: joblib calls this before each run
+            self._view = self._default_view()
         return len(self._view)
 
     def terminate(self):
         """Close the client if we created it"""
-        if self._client_owner:
+        if self._client_owner and self._view is not None:
             self._view.client.close()
+            self._view = None
         if self._cluster_owner:
             self._cluster.stop_cluster_sync()
+            self._cluster_owner = False
 
     def apply_async(self, func, callback=None):
         """Schedule a func to be run"""
-- 
2.43.0

