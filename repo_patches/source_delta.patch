From 2a4c6e7c9010f7042ea7dc7292fbc2a580a5bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 01/39] fix: fail outstanding requests whenever a connection
 closes

A closed stream or a local close() left pending futures unresolved forever,
and abort() used Future.set_exc_info(), which tornado no longer has.
---
 kiel/connection.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..7326ddd 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -77,22 +77,25 @@ class Connection(object):
         """
         Sets the ``closing`` attribute to ``True`` and calls ``close()`` on the
         underlying stream.
+
+        Any request still waiting for its response is failed.
         """
         self.closing = True
         self.stream.close()
+        self.fail_pending(BrokerConnectionError(self.host, self.port))
 
     @contextlib.contextmanager
     def socket_error_handling(self, failure_message):
         """
         helper contextmanager for handling errors during IOStream operations.
 
-        Handles the StreamClosedError case by setting the ``closing`` flag,
+        Handles the StreamClosedError case by closing this end as well,
         logs any unexpected exceptions with a failure message.
         """
         try:
             yield
         except iostream.StreamClosedError:
-            self.closing = True
+            self.close()
         except Exception:
             if not self.closing:
                 log.exception(failure_message)
@@ -163,17 +166,19 @@ class Connection(object):
 
         log.warn("Aborting connection to %s:%s", self.host, self.port)
 
+        self.fail_pending(
+            sys.exc_info()[1] or BrokerConnectionError(self.host, self.port)
+        )
         self.close()
+
+    def fail_pending(self, error):
+        """
+        Puts all pending futures into an error state.
+        """
         self.api_correlation.clear()
         while self.pending:
             _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
+            pending.set_exception(error)
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From a91ca80eade538e572325a98c2e81c2fc1983aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 02/39] fix: try the next bootstrap host when one fails to
 answer

Only a failure to connect moved on to the next host; a connection lost
before the metadata reply made start() fail although other hosts were fine.
---
 kiel/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..89e2e5a 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -92,6 +92,7 @@ class Cluster(object):
 
             try:
                 yield conn.connect()
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
@@ -99,8 +100,6 @@ class Cluster(object):
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
             conn.close()
             break
 
-- 
2.43.0


From b8b112a1faaf353e505947b2156ea8ba8a449bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 03/39] fix: metadata lookups survive broken replies and
 concurrent refreshes

An undecodable reply ended the lookup instead of moving on to the next
broker, and a refresh changing the connections meanwhile raised RuntimeError.
---
 kiel/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 89e2e5a..9ccb5b9 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -156,7 +156,7 @@ class Cluster(object):
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
@@ -164,6 +164,11 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception(
+                    "Error gathering metadata from %s:%s", conn.host, conn.port
+                )
+                continue
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From f20732cda1c5c9858d1e9911c0161db244a10b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 04/39] fix: retrying missing topics no longer forgets all
 other topics

heal() asked for the missing topics only and then replaced everything it
knew with that partial answer.
---
 kiel/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 9ccb5b9..bc97638 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -138,7 +138,8 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            # asks for all topics, as process_topics() replaces what is known
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
-- 
2.43.0


From f6d5486290f9f9a039a363e5c6095ec66db408c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 05/39] fix: overlapping refreshes leak no connection and
 departed brokers go

Two refreshes connecting to the same broker overwrote (and leaked) one of the
connections, and an aborted departed broker stayed listed until the next one.
---
 kiel/cluster.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index bc97638..7a5914b 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -197,6 +197,10 @@ class Cluster(object):
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
+                if broker.broker_id in self.conns:
+                    # a concurrent refresh got there first
+                    conn.close()
+                    continue
                 self.conns[broker.broker_id] = conn
             except iostream.StreamClosedError:
                 log.warn(
@@ -214,7 +218,10 @@ class Cluster(object):
                 continue
 
         for broker_id in to_drop:
-            self.conns[broker_id].abort()
+            conn = self.conns.get(broker_id)
+            if conn is not None:
+                conn.abort()
+                self.conns.pop(broker_id, None)
 
         raise gen.Return(missing)
 
-- 
2.43.0


From 6e5e2bcc2afde513f43af628b0de1e934a19f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 06/39] fix: a missing broker no longer breaks requests to the
 others

send() raised KeyError for a broker without a connection, and nothing was
sent to anyone; it now counts as a lost connection.
---
 kiel/clients/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..0d3c257 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -73,9 +73,17 @@ class Client(object):
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
         """
+        known = {}
+        for broker_id, request in six.iteritems(request_by_broker):
+            if broker_id in self.cluster:
+                known[broker_id] = request
+            else:
+                log.info("No connection to broker %s", broker_id)
+                self.heal_cluster = True
+
         iterator = gen.WaitIterator(**{
             str(broker_id): self.cluster[broker_id].send(request)
-            for broker_id, request in six.iteritems(request_by_broker)
+            for broker_id, request in six.iteritems(known)
         })
 
         results = {}
-- 
2.43.0


From d4bb85355c4a805f1ff668c6a8393d94bd4b996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 07/39] fix: a heal requested while another one runs is not
 forgotten

The flag was cleared after healing, wiping out what concurrent calls set.
---
 kiel/clients/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 0d3c257..4f05540 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -110,7 +110,12 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
+            # reset first: other calls may ask for another heal meanwhile
             self.heal_cluster = False
+            try:
+                yield self.cluster.heal()
+            except Exception:
+                self.heal_cluster = True
+                raise
 
         raise gen.Return(results)
-- 
2.43.0


From cedf08e6221aeeb988e202dad2f29d7146f2c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 08/39] fix: messages queued for a topic that vanished are kept

flush() failed with an error from the partitioner, and every queued message
was lost with it.
---
 kiel/clients/producer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..9b0d6f1 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -151,9 +151,12 @@ class Producer(Client):
 
         for topic, msgs in drain(self.unsent):
             for msg in msgs:
-                partition = self.partitioner(
-                    msg.key, self.cluster.topics[topic]
-                )
+                # the topic may be gone since produce() was called
+                partitions = self.cluster.topics.get(topic)
+                if not partitions:
+                    to_retry[topic].append(msg)
+                    continue
+                partition = self.partitioner(msg.key, partitions)
                 leader = self.cluster.get_leader(topic, partition)
                 if leader not in self.cluster:
                     to_retry[topic].append(msg)
-- 
2.43.0


From 476bd41336fb9f3f014d07799566dcf031ec9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 09/39] fix: requests that lost their connection are sent again

Messages of a produce request whose connection failed stayed in the
bookkeeping of sent requests and were never retried.
---
 kiel/clients/producer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 9b0d6f1..2d4da9a 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -190,7 +190,15 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-        yield self.send(requests)
+        try:
+            yield self.send(requests)
+        finally:
+            # whatever got no response is still to be sent
+            for request in six.itervalues(requests):
+                unanswered = self.sent.pop(request.correlation_id, {})
+                for topic, partitions in six.iteritems(unanswered):
+                    for msgs in six.itervalues(partitions):
+                        self.queue_retries(topic, msgs)
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From 10607998f81e47fadc74d287e6ffdc2feba5166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 10/39] fix: error codes unknown to the client no longer raise
 KeyError

Logging a code missing from ERROR_CODES made the whole reply fail.
---
 kiel/clients/consumer.py | 3 ++-
 kiel/clients/grouped.py  | 5 +++--
 kiel/clients/producer.py | 3 ++-
 kiel/clients/single.py   | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..aaf8273 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,8 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..1dca76a 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -203,7 +203,8 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,7 +277,7 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
+                        constants.ERROR_CODES.get(code, code),
                         topic, partition.partition_id
                     )
 
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 2d4da9a..ef75f90 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -228,7 +228,8 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code),
+                        topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..d73db78 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,8 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From 767d8150a4cd99c945a86b089045a57c8abf5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 11/39] fix: fetch only from offsets that were actually looked
 up

Consuming a topic before its metadata was loaded, or when the offset lookup
met a retriable error or a lost connection, marked its offsets as determined
without having any, so that fetching started at offset 0; a rebalance during
the lookup was overruled the same way.
---
 kiel/clients/consumer.py | 31 +++++++++++++++++++----------
 kiel/clients/single.py   | 43 +++++++++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index aaf8273..0f836c7 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -74,12 +74,12 @@ class BaseConsumer(Client):
         """
         Fetches from a given topics returns a list of deserialized values.
 
-        If the given topic is not known to have synced offsets, a call to
-        `determine_offsets()` is made first.
-
         If a topic is unknown entirely the cluster's ``heal()`` method is
         called and the check retried.
 
+        If the given topic is not known to have synced offsets, a call to
+        `determine_offsets()` is made first.
+
         Since error codes and deserialization are taken care of by
         `handle_fetch_response` this method merely yields to wait on the
         deserialized results and returns a flattened list.
@@ -87,14 +87,6 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.synced_offsets:
-            try:
-                yield self.determine_offsets(topic, start)
-            except NoOffsetsError:
-                log.error("Unable to determine offsets for topic %s", topic)
-                raise gen.Return([])
-            self.synced_offsets.add(topic)
-
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
@@ -103,6 +95,23 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
+        if topic not in self.synced_offsets:
+            # marked up front, so that whatever invalidates the offsets while
+            # they are being determined is not overruled afterwards
+            self.synced_offsets.add(topic)
+            try:
+                yield self.determine_offsets(topic, start)
+            except NoOffsetsError:
+                log.error("Unable to determine offsets for topic %s", topic)
+                self.synced_offsets.discard(topic)
+                raise gen.Return([])
+            except Exception:
+                self.synced_offsets.discard(topic)
+                raise
+
+            if topic not in self.synced_offsets:
+                raise gen.Return([])
+
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
             leader = self.cluster.get_leader(topic, partition_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index d73db78..27577bf 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -69,22 +69,27 @@ class SingleConsumer(BaseConsumer):
                 ]
             )
 
-        requests = collections.defaultdict(request_factory)
-
-        for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
-            requests[leader].topics[0].partitions.append(
-                offset.PartitionRequest(
-                    partition_id=partition_id,
-                    time=offset_time,
-                    max_offsets=1
+        retry = True
+        while retry:
+            requests = collections.defaultdict(request_factory)
+
+            for partition_id in self.allocation[topic]:
+                leader = self.cluster.get_leader(topic, partition_id)
+                requests[leader].topics[0].partitions.append(
+                    offset.PartitionRequest(
+                        partition_id=partition_id,
+                        time=offset_time,
+                        max_offsets=1
+                    )
                 )
+
+            log.debug(
+                "Sending offset request to %d leaders.", len(requests.keys())
             )
+            results = yield self.send(requests)
 
-        log.debug(
-            "Sending offset request to %d leaders.", len(requests.keys())
-        )
-        yield self.send(requests)
+            # leaders missing from the results could not be reached
+            retry = len(results) < len(requests) or any(results.values())
 
         raise gen.Return(True)
 
@@ -96,9 +101,13 @@ class SingleConsumer(BaseConsumer):
         the ``self.offsets`` structure.
 
         A retriable error code response will cause the cluster's ``heal()``
-        method to be called at the end of processing and the offending topic's
-        offsets to be re-evaluated on the next `consume()` call.
+        method to be called at the end of processing and the lookup to be
+        retried.
+
+        Returns ``True`` if the operation should be retried, ``False`` if not.
         """
+        retry = False
+
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
@@ -111,7 +120,7 @@ class SingleConsumer(BaseConsumer):
 #                log.debug("%d", self.offsets[topic][partition.partition_id])
             elif code in errors.retriable:
                 self.heal_cluster = True
-                self.synced_offsets.discard(topic)
+                retry = True
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
@@ -120,6 +129,8 @@ class SingleConsumer(BaseConsumer):
                 )
                 raise NoOffsetsError
 
+        return retry
+
     @gen.coroutine
     def wind_down(self):
         """
-- 
2.43.0


From aa12070504c53757ad358d36a400f3cb036f8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 12/39] fix: an empty offset lookup result is not an IndexError

Brokers answer lookups of times before the log's start with no offset at all.
---
 kiel/clients/single.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 27577bf..7ae6009 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -113,6 +113,12 @@ class SingleConsumer(BaseConsumer):
         for partition in response.topics[0].partitions:
             code = partition.error_code
             if code == errors.no_error:
+                if not partition.offsets:
+                    log.error(
+                        "No offset known for topic %s partition %s",
+                        topic, partition.partition_id
+                    )
+                    raise NoOffsetsError
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
-- 
2.43.0


From d2b35d7b7f3031d268b884aefd064eb9514e4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 13/39] fix: datetime and timedelta starts can be put on the
 wire

Fractional seconds made the 64-bit time field of the request fail to pack.
---
 kiel/clients/single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 7ae6009..c69d387 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -153,10 +153,10 @@ def start_to_timestamp(start):
     or one of `SingleConsumer.BEGINNING` or `SingleConsumer.END`.
     """
     if isinstance(start, datetime.datetime):
-        offset_time = (start - EPOCH).total_seconds()
+        offset_time = int((start - EPOCH).total_seconds())
     elif isinstance(start, datetime.timedelta):
         now = calendar.timegm(time.gmtime())
-        offset_time = now - start.total_seconds()
+        offset_time = int(now - start.total_seconds())
     else:
         offset_time = start
 
-- 
2.43.0


From f09571ac034e0ab8fa5dd12d872f288dfc8dcf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 14/39] fix: an allocated partition without a known leader is
 skipped

Consuming raised KeyError for the whole topic; the partition is now left out
until the metadata refresh it triggers finds a leader.
---
 kiel/clients/consumer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 0f836c7..9de4dda 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -114,7 +114,12 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+            try:
+                leader = self.cluster.get_leader(topic, partition_id)
+            except KeyError:
+                log.warn("No leader known for %s|%s", topic, partition_id)
+                self.heal_cluster = True
+                continue
             ordered[leader].append(partition_id)
 
         requests = {}
-- 
2.43.0


From 32d828e16e590afff819b07bb5e16c1d909c1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 15/39] fix: a topic vanishing during the offset lookup has no
 offsets

The lookup ended without any answer yet counted as done, and a topic coming
back was then fetched from offset 0.
---
 kiel/clients/single.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index c69d387..5cef269 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -83,6 +83,9 @@ class SingleConsumer(BaseConsumer):
                     )
                 )
 
+            if not requests:  # the topic is gone
+                raise NoOffsetsError
+
             log.debug(
                 "Sending offset request to %d leaders.", len(requests.keys())
             )
-- 
2.43.0


From 850951eadc5f77d8630fc00b182a5286b0ae64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 16/39] fix: a failing consume() does not skip the messages it
 had fetched

When healing the cluster failed after some brokers had replied, their
messages were dropped although the offsets had moved past them.
---
 kiel/clients/consumer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 9de4dda..a29f15b 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -141,7 +141,13 @@ class BaseConsumer(Client):
                 ]
             )
 
-        results = yield self.send(requests)
+        positions = dict(self.offsets[topic])
+        try:
+            results = yield self.send(requests)
+        except Exception:
+            # nothing gets delivered, so nothing counts as consumed
+            self.offsets[topic].update(positions)
+            raise
 #        log.debug(results)
         raise gen.Return([
             msg for messageset in results.values() for msg in messageset
-- 
2.43.0


From 22aa522745fd9eab9fce3de88c118721b2acde22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 17/39] fix: messages that fail to deserialize do not block
 their partition

The offset stayed on a bad message at the end of a batch, so a fetch holding
only bad messages was repeated forever.
---
 kiel/clients/consumer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index a29f15b..7f2cf25 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -203,11 +203,14 @@ class BaseConsumer(Client):
         If an error is encountered when deserializing it is logged and the
         offending message is skipped.
 
-        After each successful deserialization the ``self.offsets`` entry for
-        the particular topic/partition pair is incremented.
+        The ``self.offsets`` entry for the particular topic/partition pair
+        moves past each message, skipped ones included.
         """
         messages = []
         for offset, msg in partition.message_set.messages:
+            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
+                self.offsets[topic_name][partition.partition_id] = offset + 1
+
             try:
                 value = self.deserializer(msg.value)
             except Exception:
@@ -218,9 +221,5 @@ class BaseConsumer(Client):
                 continue
 
             messages.append(value)
-#            log.debug("offset %d => ", self.offsets[topic_name][partition.partition_id])
-            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
-                self.offsets[topic_name][partition.partition_id] = offset + 1
-#            log.debug("%d", self.offsets[topic_name][partition.partition_id])
 
         return messages
-- 
2.43.0


From 0f09aac603bae03b3d9efc5bf71447d1e5adaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 18/39] fix: looking for the coordinator survives a lost broker

A broker disconnecting while asked raised KeyError instead of moving on.
---
 kiel/clients/grouped.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 1dca76a..dc20863 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -112,7 +112,8 @@ class GroupedConsumer(BaseConsumer):
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
+                # no result if the connection to the broker was lost
+                determined = results.get(broker_id, False)
                 if determined:
                     break
 
-- 
2.43.0


From 358a99fddb3d1861af224a360099a5b92cbe6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 19/39] fix: follow the group coordinator when it is lost or
 moves

A lost coordinator raised KeyError (dropping messages already consumed) and
one that no longer coordinates the group was asked forever.
---
 kiel/clients/grouped.py | 76 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index dc20863..ea15680 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -117,6 +117,43 @@ class GroupedConsumer(BaseConsumer):
                 if determined:
                     break
 
+    @gen.coroutine
+    def has_coordinator(self):
+        """
+        Looks up the coordinator if there is none (any more).
+
+        Returns ``False`` if no coordinator could be determined.
+        """
+        if self.coordinator_id is None:
+            yield self.determine_coordinator()
+
+        raise gen.Return(self.coordinator_id is not None)
+
+    @gen.coroutine
+    def send_to_coordinator(self, request):
+        """
+        Sends a request to the coordinator and returns the handler's result.
+
+        If the connection to the coordinator is lost it is forgotten, and the
+        result is ``None``.
+        """
+        coordinator_id = self.coordinator_id
+        results = yield self.send({coordinator_id: request})
+        if coordinator_id not in results:
+            self.coordinator_id = None
+
+        raise gen.Return(results.get(coordinator_id))
+
+    def check_coordinator(self, error_code):
+        """
+        Forgets the coordinator if the given error code says it is not (or no
+        longer) the one.
+        """
+        if error_code in (
+                errors.not_coordinator, errors.coordinator_not_available
+        ):
+            self.coordinator_id = None
+
     def handle_group_coordinator_response(self, response):
         """
         Handler for consumer metadata api responses.
@@ -154,19 +191,26 @@ class GroupedConsumer(BaseConsumer):
           signature remains consistent with the other consumer classes.
         """
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
-        request = offset_fetch.OffsetFetchRequest(
-            group_name=self.group_name,
-            topics=[
-                offset_fetch.TopicRequest(
-                    name=topic, partitions=list(self.allocation[topic])
-                )
-            ]
-        )
-
         retry = True
         while retry:
-            result = yield self.send({self.coordinator_id: request})
-            retry = result[self.coordinator_id]
+            if not (yield self.has_coordinator()):
+                raise exc.NoOffsetsError
+
+            partitions = self.allocation.get(topic)
+            if not partitions:  # all taken away by a rebalance
+                raise exc.NoOffsetsError
+
+            request = offset_fetch.OffsetFetchRequest(
+                group_name=self.group_name,
+                topics=[
+                    offset_fetch.TopicRequest(
+                        name=topic, partitions=list(partitions)
+                    )
+                ]
+            )
+
+            result = yield self.send_to_coordinator(request)
+            retry = result is None or result
 
     def handle_offset_fetch_response(self, response):
         """
@@ -199,6 +243,7 @@ class GroupedConsumer(BaseConsumer):
                 )
                 retry = True
             elif code in errors.retriable:
+                self.check_coordinator(code)
                 self.heal_cluster = True
                 retry = True
             else:
@@ -222,6 +267,10 @@ class GroupedConsumer(BaseConsumer):
         if metadata is None:
             metadata = "committed by %s" % self.name
 
+        if not (yield self.has_coordinator()):
+            log.error("No coordinator for group '%s'", self.group_name)
+            return
+
         log.debug("Committing offsets for consumer group %s", self.group_name)
         request = offset_commit.OffsetCommitV0Request(
             group=self.group_name,
@@ -242,8 +291,8 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        results = yield self.send({self.coordinator_id: request})
-        retry, adjust_metadata = results[self.coordinator_id]
+        result = yield self.send_to_coordinator(request)
+        retry, adjust_metadata = result or (True, False)
 
         if adjust_metadata:
             log.warn("Offset commit metadata '%s' was too long.", metadata)
@@ -270,6 +319,7 @@ class GroupedConsumer(BaseConsumer):
                 if code == errors.no_error:
                     self.topics_to_commit.discard(topic.name)
                 elif code in errors.retriable:
+                    self.check_coordinator(code)
                     retry = True
                     self.heal_cluster = True
                 elif code == errors.offset_metadata_too_large:
-- 
2.43.0


From 2697bbd4ea3cacc73baee246bdcf55d325b87e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 20/39] fix: a commit is complete only when every partition is
 committed

One partition's success dropped its topic from the retry of a commit that
had failed for another partition of the same topic.
---
 kiel/clients/grouped.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index ea15680..3301dcb 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -314,11 +314,14 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
+            committed = True
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
-                elif code in errors.retriable:
+                    continue
+
+                committed = False
+                if code in errors.retriable:
                     self.check_coordinator(code)
                     retry = True
                     self.heal_cluster = True
@@ -332,6 +335,9 @@ class GroupedConsumer(BaseConsumer):
                         topic, partition.partition_id
                     )
 
+            if committed:
+                self.topics_to_commit.discard(topic.name)
+
         return (retry, adjust_metadata)
 
     @gen.coroutine
-- 
2.43.0


From 1747590c6ecdba544e36c6e6c8d2ebd443e7d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 21/39] fix: no commits for partitions whose offsets were never
 determined

After a rebalance, commit_offsets() committed leftover or default (0) offsets
for newly allocated partitions.
---
 kiel/clients/grouped.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 3301dcb..f439967 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -287,9 +287,13 @@ class GroupedConsumer(BaseConsumer):
                     ]
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
+                # offsets not in sync may belong to another allocation
                 if topic in self.topics_to_commit
+                and topic in self.synced_offsets
             ]
         )
+        if not request.topics:
+            return
 
         result = yield self.send_to_coordinator(request)
         retry, adjust_metadata = result or (True, False)
-- 
2.43.0


From 5d56ec9c993fd9e28124e209e8f8b619071ca91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 22/39] fix: a failing autocommit does not lose the consumed
 messages

consume() raised when no broker was left to commit to, dropping messages it
would not fetch again.
---
 kiel/clients/grouped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index f439967..2dcc59a 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -91,7 +91,10 @@ class GroupedConsumer(BaseConsumer):
         self.topics_to_commit.add(topic)
 
         if self.autocommit:
-            yield self.commit_offsets()
+            try:
+                yield self.commit_offsets()
+            except exc.NoBrokersError:
+                log.exception("Could not commit offsets")
 
         raise gen.Return(result)
 
-- 
2.43.0


From ed2c4f7ed8fcdf29907b6a1f4d9e2788ffc39782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 23/39] fix: heartbeat requests and responses declare their
 parts properly

The parts were not (name, class) pairs, so neither could be used at all.
---
 kiel/protocol/heartbeat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kiel/protocol/heartbeat.py b/kiel/protocol/heartbeat.py
index aa8d518..b526dc7 100644
--- a/kiel/protocol/heartbeat.py
+++ b/kiel/protocol/heartbeat.py
@@ -18,15 +18,15 @@ class HeartbeatRequest(Request):
 
       HeartbeatRequest =>
         group_id => String
-        generation_id = Int32
+        generation_id => Int32
         member_id => String
     """
     api = "heartbeat"
 
     parts = (
-        "group_id", String,
-        "generation_id", Int32,
-        "member_id", String,
+        ("group_id", String),
+        ("generation_id", Int32),
+        ("member_id", String),
     )
 
 
@@ -40,5 +40,5 @@ class HeartbeatResponse(Response):
     api = "heartbeat"
 
     parts = (
-        "error_code", Int16
+        ("error_code", Int16),
     )
-- 
2.43.0


From fbb5697622e23b16d839fb44d73a904631c7be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 24/39] fix: the v1 offset commit topic part holds a list of
 partitions

It was declared as a single partition, contrary to its documentation.
---
 kiel/protocol/offset_commit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/offset_commit.py b/kiel/protocol/offset_commit.py
index e611f15..5f7ff8a 100644
--- a/kiel/protocol/offset_commit.py
+++ b/kiel/protocol/offset_commit.py
@@ -78,7 +78,7 @@ class TopicV1Request(Part):
     """
     parts = (
         ("name", String),
-        ("partitions", PartitionV1Request),
+        ("partitions", Array.of(PartitionV1Request)),
     )
 
 
-- 
2.43.0


From aae230f2a467a5111ef1629c5b1ac8fe8c89218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 25/39] fix: a cut off message no longer garbles the partitions
 after it

A message set ending in a truncated message was parsed past its end, into
the next partition, whose own parsing then started at the wrong place.
---
 kiel/protocol/messages.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..0939de9 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -126,10 +126,13 @@ class MessageSet(object):
         end = offset + size
 
         messages = []
-        while not offset == end:
+        while offset < end:
             try:
                 message_offset, offset = Int64.parse(buff, offset)
-                _, offset = Int32.parse(buff, offset)  # message size
+                message_size, offset = Int32.parse(buff, offset)
+                if offset > end or offset + message_size > end:
+                    # cut off, what follows is not part of this set
+                    break
                 message, offset = Message.parse(buff, offset)
             except struct.error:
                 # ending messages can sometimes be cut off
@@ -142,7 +145,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From ac70e8c7f1b25348f6f2a58aed337016c21975c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 26/39] fix: a checksum of exactly 2**31 can be packed

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 0939de9..d56e8d4 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -177,7 +177,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From cf7b59fa5e0536ebe9adbb2163860db0ad12954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 27/39] fix: snappy decompression reads all blocks

The end of the data was taken to be one header length too early, so a short
last block was dropped.
---
 kiel/compression/snappy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..553e1df 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,11 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
+    length = len(data)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < length:
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From 27ff0dbad419e3fc697eeed057b1489c1897add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 28/39] fix: shared set data is written as bytes

The kazoo client accepts nothing else, so no grouped consumer could start
under python 3.
---
 kiel/zookeeper/shared_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..158ee82 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -85,7 +85,7 @@ class SharedSet(object):
         """
         Serializes the set data as a list in a JSON string.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
-- 
2.43.0


From 95dfc910f8f462ec16b66dc33b2b66fd7634e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 29/39] fix: a vanished partition node can be recreated

It was created with an unserialized set as its value, and losing the race to
another member was an error; either ended the watch.
---
 kiel/zookeeper/allocator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..763c8ee 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -3,7 +3,7 @@ import threading
 
 import six
 from tornado import concurrent
-from kazoo import client
+from kazoo import client, exceptions
 
 from kiel.zookeeper import Party, SharedSet
 from kiel.events import wait_on_event
@@ -193,7 +193,13 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            try:
+                self.conn.create(
+                    self.partition_path,
+                    value=self.shared_set.serialize(self.partitions)
+                )
+            except exceptions.NodeExistsError:
+                pass  # another member was faster
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From b8fe9d843476d2639d3c1d0aba9eed4b5bd0591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 30/39] fix: remove_partitions() takes lists of partitions as
 documented

It tried to use each topic's list of partitions as a partition id.
---
 kiel/zookeeper/allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 763c8ee..b655038 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -245,8 +245,9 @@ class PartitionAllocator(object):
         wait_on_event(self.connected)
 
         self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
         ]))
 
     def rebalance(self):
-- 
2.43.0


From 22bc2d9ae1d17ffa65a9c35bade03313fe88085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 31/39] fix: owning no partitions is an empty allocation, not a
 KeyError

A custom allocator returning a plain dict without an entry for this member
broke the rebalance.
---
 kiel/zookeeper/allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index b655038..509e79a 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -67,7 +67,7 @@ class PartitionAllocator(object):
         """
         Property representing the topics allocated for a specific consumer.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From 8aa47769494fcfddc6fe3a71cf1981c5c0071ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 32/39] fix: joining succeeds when the stale member node
 expires meanwhile

The transaction replacing it then fails as a whole, and the member was left
without a node.
---
 kiel/zookeeper/party.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/zookeeper/party.py b/kiel/zookeeper/party.py
index f92cf6b..dc1539b 100644
--- a/kiel/zookeeper/party.py
+++ b/kiel/zookeeper/party.py
@@ -65,6 +65,9 @@ class Party(object):
             txn.delete(path)
             txn.create(path, ephemeral=True)
             txn.commit()
+            if not self.client.exists(path):
+                # the old node expired meanwhile, which fails the transaction
+                self.client.create(path, ephemeral=True, makepath=True)
 
     def leave(self):
         """
-- 
2.43.0


From 9d688a1a8a8ac7ec9e3a09d288bdda196fd2076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 33/39] fix: simultaneous changes cannot leave a stale
 allocation behind

Members and partitions can change on two threads at once while starting; the
rebalance that had read the older state could be the last to set the mapping.
---
 kiel/zookeeper/allocator.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 509e79a..b890b59 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -61,6 +61,8 @@ class PartitionAllocator(object):
         )
 
         self.mapping = {}
+        # changes are reported by kazoo's thread, but first by the starting one
+        self.change_lock = threading.RLock()
 
     @property
     def allocation(self):
@@ -174,9 +176,10 @@ class PartitionAllocator(object):
         log.info("Consumer group '%s' members changed.", self.group_name)
 
         new_members = set(new_members)
-        if new_members != self.members:
-            self.members = new_members
-            self.rebalance()
+        with self.change_lock:
+            if new_members != self.members:
+                self.members = new_members
+                self.rebalance()
 
         self.members_collected.set()
 
@@ -202,9 +205,10 @@ class PartitionAllocator(object):
                 pass  # another member was faster
             return
 
-        if new_partitions != self.partitions:
-            self.partitions = new_partitions
-            self.rebalance()
+        with self.change_lock:
+            if new_partitions != self.partitions:
+                self.partitions = new_partitions
+                self.rebalance()
 
         self.partitions_collected.set()
 
-- 
2.43.0


From b80783ae67aebc6ac4ee18b3d65aaef4c22d848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 34/39] fix: close() closes the connections even if winding
 down fails

An error while flushing or leaving the group left every connection open.
---
 kiel/clients/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 4f05540..e942569 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -40,9 +40,10 @@ class Client(object):
         """
         self.closing = True
 
-        yield self.wind_down()
-
-        self.cluster.stop()
+        try:
+            yield self.wind_down()
+        finally:
+            self.cluster.stop()
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From bf8037194cea5963d78728582e8ff32a57ff2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:05 +0000
Subject: [PATCH 35/39] fix: a refresh under way when the cluster is stopped
 opens no connections any more

---
 kiel/cluster.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 7a5914b..53a2193 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -26,6 +26,8 @@ class Cluster(object):
     def __init__(self, bootstrap_hosts):
         self.bootstrap_hosts = bootstrap_hosts
 
+        self.stopped = False
+
         self.conns = {}
         self.topics = collections.defaultdict(list)
         self.leaders = collections.defaultdict(dict)
@@ -80,6 +82,8 @@ class Cluster(object):
         """
         response = None
 
+        self.stopped = False
+
         for host in self.bootstrap_hosts:
             if ":" in host:
                 host, port = host.split(":")
@@ -194,11 +198,14 @@ class Cluster(object):
             if broker.broker_id in self.conns:
                 continue
 
+            if self.stopped:
+                raise NoBrokersError
+
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
-                if broker.broker_id in self.conns:
-                    # a concurrent refresh got there first
+                if self.stopped or broker.broker_id in self.conns:
+                    # stopped, or a concurrent refresh got there first
                     conn.close()
                     continue
                 self.conns[broker.broker_id] = conn
@@ -277,6 +284,10 @@ class Cluster(object):
     def stop(self):
         """
         Simple method that calls ``close()`` on each connection.
+
+        A refresh still under way does not open any more of them.
         """
+        self.stopped = True
+
         for conn in self.conns.values():
             conn.close()
-- 
2.43.0


From 9c6528ce1ad59a3807eda0c2474037f99fc6e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 36/39] fix: a compressed set fetched from its middle does not
 deliver its beginning again

---
 kiel/clients/consumer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 7f2cf25..fd2f4b0 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -207,7 +207,14 @@ class BaseConsumer(Client):
         moves past each message, skipped ones included.
         """
         messages = []
-        for offset, msg in partition.message_set.messages:
+        entries = partition.message_set.messages
+        # a compressed set is returned whole, so it may start before the
+        # position asked for
+        position = self.offsets[topic_name][partition.partition_id]
+        if any(offset >= position for offset, _ in entries):
+            entries = [entry for entry in entries if entry[0] >= position]
+
+        for offset, msg in entries:
             if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
                 self.offsets[topic_name][partition.partition_id] = offset + 1
 
-- 
2.43.0


From 5b0043df961051dd3052be214df594fb2293addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 37/39] fix: no commit of offsets that are still being
 determined

---
 kiel/clients/consumer.py | 24 +++++++++++++++---------
 kiel/clients/grouped.py  |  2 +-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index fd2f4b0..5fe6af1 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -45,6 +45,7 @@ class BaseConsumer(Client):
             lambda: collections.defaultdict(int)
         )
         self.synced_offsets = set()
+        self.offset_lookups = set()  # under way, and not invalidated yet
 
     @property
     def allocation(self):
@@ -69,6 +70,13 @@ class BaseConsumer(Client):
         """
         raise NotImplementedError
 
+    def forget_offsets(self):
+        """
+        Invalidates all offsets, those still being determined included.
+        """
+        self.synced_offsets.clear()
+        self.offset_lookups.clear()
+
     @gen.coroutine
     def consume(self, topic, start=None):
         """
@@ -96,21 +104,19 @@ class BaseConsumer(Client):
             raise gen.Return([])
 
         if topic not in self.synced_offsets:
-            # marked up front, so that whatever invalidates the offsets while
-            # they are being determined is not overruled afterwards
-            self.synced_offsets.add(topic)
+            lookup = (topic, object())
+            self.offset_lookups.add(lookup)
             try:
                 yield self.determine_offsets(topic, start)
+                if lookup not in self.offset_lookups:
+                    raise gen.Return([])
             except NoOffsetsError:
                 log.error("Unable to determine offsets for topic %s", topic)
-                self.synced_offsets.discard(topic)
                 raise gen.Return([])
-            except Exception:
-                self.synced_offsets.discard(topic)
-                raise
+            finally:
+                self.offset_lookups.discard(lookup)
 
-            if topic not in self.synced_offsets:
-                raise gen.Return([])
+            self.synced_offsets.add(topic)
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 2dcc59a..004a22b 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -50,7 +50,7 @@ class GroupedConsumer(BaseConsumer):
         self.allocator = PartitionAllocator(
             zk_hosts, self.group_name, self.name,
             allocator_fn=partition_allocator or naive_allocator,
-            on_rebalance=self.synced_offsets.clear
+            on_rebalance=self.forget_offsets
         )
 
         self.topics_to_commit = set()
-- 
2.43.0


From 12fd0076feec05e2325dd98123add92c3e53b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 38/39] fix: overlapping refreshes end with the newest answer,
 not whichever finished last

---
 kiel/cluster.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 53a2193..2b8decc 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -31,6 +31,8 @@ class Cluster(object):
         self.conns = {}
         self.topics = collections.defaultdict(list)
         self.leaders = collections.defaultdict(dict)
+        # the answer of the latest refresh
+        self.newest_metadata = None
 
     def __getitem__(self, broker_id):
         """
@@ -121,14 +123,32 @@ class Cluster(object):
         If not response argument is given, a call to `get_metatadata()` fetches
         fresh information.
 
-        As a first step this will cull any closing/aborted connections from the
-        cluster.  This is followed by repeated calls to `process_brokers()` and
-        `process_topics()` until both signal that there are no missing brokers
-        or topics.
+        This is followed by repeated calls to `process_metadata()` until it
+        signals that there are no missing brokers or topics.
         """
         if not response:
             response = yield self.get_metadata()
 
+        incomplete = yield self.process_metadata(response)
+
+        while incomplete:
+            # asks for all topics, as process_topics() replaces what is known
+            response = yield self.get_metadata()
+            incomplete = yield self.process_metadata(response)
+
+    @gen.coroutine
+    def process_metadata(self, response):
+        """
+        Syncs the state of the cluster with the given metadata, returning
+        ``True`` if newer metadata is called for.
+
+        As a first step this will cull any closing/aborted connections from the
+        cluster.  This is followed by calls to `process_brokers()` and
+        `process_topics()`, unless a concurrent call got newer metadata in the
+        meantime.
+        """
+        self.newest_metadata = response
+
         broker_ids = list(self.conns.keys())
         for broker_id in broker_ids:
             if self.conns[broker_id].closing:
@@ -139,13 +159,12 @@ class Cluster(object):
                 self.conns.pop(broker_id)
 
         missing_conns = yield self.process_brokers(response.brokers)
+        if response is not self.newest_metadata:
+            raise gen.Return(True)
+
         missing_topics = self.process_topics(response.topics)
 
-        while missing_conns or missing_topics:
-            # asks for all topics, as process_topics() replaces what is known
-            response = yield self.get_metadata()
-            missing_conns = yield self.process_brokers(response.brokers)
-            missing_topics = self.process_topics(response.topics)
+        raise gen.Return(bool(missing_conns or missing_topics))
 
     @gen.coroutine
     def get_metadata(self, topics=None):
-- 
2.43.0


From 13a78066a7103cc7404667dd74a9b56fc37e5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 39/39] fix: messages sent again keep the order they were
 produced in, whatever their partition was

---
 kiel/clients/producer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index ef75f90..8fa4a11 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -1,4 +1,5 @@
 import collections
+import itertools
 import logging
 import json
 import random
@@ -61,6 +62,8 @@ class Producer(Client):
         self.required_acks = required_acks
         self.ack_timeout = ack_timeout
 
+        # of each message among all produced ones
+        self.positions = itertools.count()
         # dictionary of topic -> messages
         self.unsent = collections.defaultdict(list)
         # dictionary of correlation id -> topic -> partition -> messages
@@ -102,14 +105,14 @@ class Producer(Client):
             log.error("Unknown topic %s and not auto-created", topic)
             return
 
-        self.unsent[topic].append(
-            messages.Message(
-                magic=0,
-                attributes=0,
-                key=self.key_maker(message),
-                value=self.serializer(message)
-            )
+        msg = messages.Message(
+            magic=0,
+            attributes=0,
+            key=self.key_maker(message),
+            value=self.serializer(message)
         )
+        msg.position = next(self.positions)
+        self.unsent[topic].append(msg)
 
         if not self.batch_size or self.unsent_count >= self.batch_size:
             yield self.flush()
@@ -122,6 +125,8 @@ class Producer(Client):
         """
         log.debug("Queueing %d messages for retry", len(msgs))
         self.unsent[topic].extend(msgs)
+        # they may have been meant for different partitions until now
+        self.unsent[topic].sort(key=lambda msg: msg.position)
         self.heal_cluster = True
 
     @gen.coroutine
-- 
2.43.0

