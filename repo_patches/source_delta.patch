From a9c536bfd45860d19d83b8d42b3c52b5dc82be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:31 +0000
Subject: [PATCH 01/40] fix: compute the contiguous read size of a 2 GB ring
 buffer without int overflow

CirBuf allows a capacity of exactly 2^31, for which 'int end = size - tail' overflowed
at tail 0 and maxReadSize() reported 2^31 bytes regardless of what is in the buffer.
---
 cirbuf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cirbuf.cpp b/cirbuf.cpp
index 239903a..52041ae 100644
--- a/cirbuf.cpp
+++ b/cirbuf.cpp
@@ -65,9 +65,9 @@ uint32_t CirBuf::maxWriteSize() const
 
 uint32_t CirBuf::maxReadSize() const
 {
-    int end = size - tail;
-    int n = (head + end) & (size-1);
-    int result = n < end ? n : end;
+    const uint32_t end = size - tail;
+    const uint32_t n = (head + end) & (size-1);
+    const uint32_t result = n < end ? n : end;
     return result;
 }
 
-- 
2.43.0


From e3da8f5f087a6d721356e0d2c8b2e0140707c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 02/40] fix: reject control characters preceding a multi-byte
 char in the SSE UTF-8 check
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

SimdUtils::isValidUtf8() skipped the ASCII bytes before the first multi-byte char of each
16 byte block, so '\x01é' was accepted.
---
 threadlocalutils.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a66ab66..ef2c218 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -92,6 +92,15 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
         int index = _mm_cmpestri(non_ascii_mask, 1, loaded_AND_non_ascii, len_left, 0);
         n += index;
 
+        // The ASCII bytes before the first multi-byte char in this block need to be checked as well.
+        const int ascii_bytes = (1 << index) - 1;
+
+        if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)) & ascii_bytes)
+            return false;
+
+        if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)) & ascii_bytes)
+            return false;
+
         // Checking multi-byte chars one by one. With some effort, this may be done using SIMD too, but the majority of uses will
         // have a minimum of multi byte chars.
         if (index < 16)
@@ -157,15 +166,6 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             if (plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))
                 return false;
         }
-        else
-        {
-            if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)))
-                return false;
-
-            if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)))
-                return false;
-        }
-
     }
 
     return true;
-- 
2.43.0


From 9b1092e85fd1078910764a93d07eba42e3bd2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 03/40] fix: reject code points above U+10FFFF in both UTF-8
 checks

---
 threadlocalutils.cpp | 4 ++++
 utils.h              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index ef2c218..f9fbff7 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -157,6 +157,10 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             if (cur_code_point >= 0x7F && cur_code_point <= 0x009F)
                 return false;
 
+            // Unicode ends at U+10FFFF.
+            if (cur_code_point > 0x10FFFF)
+                return false;
+
             // Unicode spec: "Which code points are noncharacters?".
             if (cur_code_point >= 0xFDD0 && cur_code_point <= 0xFDEF)
                 return false;
diff --git a/utils.h b/utils.h
index 2de4ab5..339f632 100644
--- a/utils.h
+++ b/utils.h
@@ -138,6 +138,10 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
                 if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
                     return false;
 
+                // Unicode ends at U+10FFFF.
+                if (cur_code_point > 0x10FFFF)
+                    return false;
+
                 // Unicode spec: "Which code points are noncharacters?".
                 if (cur_code_point >= 0xFDD0 && cur_code_point <= 0xFDEF)
                     return false;
-- 
2.43.0


From 2d001c0cc0e4a58a98eeb8fd6aebc4bacfa7991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 04/40] fix: include subscriptions to topics starting with '$'
 when saving sessions

getSubscriptions() only walked the normal tree, so a persistent session lost those
subscriptions on restart.
---
 subscriptionstore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..5452ab9 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1572,6 +1572,9 @@ std::unordered_map<std::string, std::list<SubscriptionForSerializing>> Subscript
 
     deferred.push_front(std::move(start));
 
+    // Subscriptions to topics starting with '$' have their own tree.
+    deferred.emplace_back(rootDollar, "", true);
+
     for (; !deferred.empty(); deferred.pop_front())
     {
         std::shared_lock locker(subscriptions_lock, std::defer_lock);
-- 
2.43.0


From c7b59047c0b43a9c5381b5cde470d7481bd3a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 05/40] fix: apply the filters of a SUBSCRIBE in order, and
 refuse retain handling 3

The deferred subscriptions were applied in reverse, so that with a filter
repeated in one packet the first options won instead of the last. The
protocol error check on retain handling compared with 4, which two bits
can't be.
---
 mqttpacket.cpp | 4 ++--
 types.cpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..6eb9b2b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1778,7 +1778,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
 
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::forward_list<SubscriptionTuple> deferredSubscribes;
+    std::list<SubscriptionTuple> deferredSubscribes;
 
     std::list<ReasonCodes> subs_reponse_codes;
     while (remainingAfterPos() > 0)
@@ -1869,7 +1869,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         if (authResult == AuthResult::success || authResult == AuthResult::success_without_retained_delivery || authResult == AuthResult::success_but_drop)
         {
             const uint32_t subscr_id = settings->subscriptionIdentifierEnabled ? subscription_identifier : 0;
-            deferredSubscribes.emplace_front(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
+            deferredSubscribes.emplace_back(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
             subs_reponse_codes.push_back(static_cast<ReasonCodes>(qos));
         }
         else
diff --git a/types.cpp b/types.cpp
index bac5fa9..03555b8 100644
--- a/types.cpp
+++ b/types.cpp
@@ -49,8 +49,8 @@ RetainHandling SubscriptionOptionsByte::getRetainHandling() const
     uint8_t x = b & 0b00110000;
     x = x >> 4;
 
-    if (x == 4)
-        throw ProtocolError("Retain Handling value of 4 is protocol error", ReasonCodes::ProtocolError);
+    if (x == 3)
+        throw ProtocolError("Retain Handling value of 3 is protocol error", ReasonCodes::ProtocolError);
 
     return static_cast<RetainHandling>(x);
 }
-- 
2.43.0


From 9340642494d4d7c07c6b1139c3c489f968734f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 06/40] fix: keep the subscription identifier when queueing
 retained and will messages

---
 publishcopyfactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/publishcopyfactory.cpp b/publishcopyfactory.cpp
index 80d96fe..d17a7ac 100644
--- a/publishcopyfactory.cpp
+++ b/publishcopyfactory.cpp
@@ -162,6 +162,7 @@ Publish PublishCopyFactory::getNewPublish(uint8_t new_max_qos, bool retainAsPubl
     Publish p(*publish);
     p.qos = actualQos;
     p.retain = getEffectiveRetain(retainAsPublished);
+    p.subscriptionIdentifier = subscriptionIdentifier;
     return p;
 }
 
-- 
2.43.0


From 7a70ce2de27a6f0dad7317f4a43a1feb500f53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 07/40] fix: start the message expiry interval of a will when
 it is published

---
 subscriptionstore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 5452ab9..c1ce654 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -413,6 +413,10 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
+        // The expiry interval of a will starts at the moment the will is published, not when the client connected.
+        if (will->expireInfo)
+            will->expireInfo->createdAt = std::chrono::steady_clock::now();
+
         PublishCopyFactory factory(will.get());
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
-- 
2.43.0


From b0dfb3d3b4725aa2574267974b0f72fa6de043a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 08/40] fix: stop looking for a packet ID when all of them are
 in use

---
 session.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/session.cpp b/session.cpp
index 29310b8..42c761b 100644
--- a/session.cpp
+++ b/session.cpp
@@ -124,8 +124,8 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
     if (flowControlQuota == 0)
         return {};
 
-    const uint16_t end = nextPacketId;
-    for(;;)
+    // All values of the 16 bit counter are tried at most once.
+    for (int i = 0; i <= 0xFFFF; i++)
     {
         nextPacketId++;
 
@@ -135,15 +135,12 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
         if (usedIds.contains(nextPacketId))
             continue;
 
-        if (nextPacketId == end)
-            return {};
-
-        break;
+        flowControlQuota--;
+        usedIds.insert(nextPacketId);
+        return nextPacketId;
     }
 
-    flowControlQuota--;
-    usedIds.insert(nextPacketId);
-    return nextPacketId;
+    return {};
 }
 
 uint16_t Session::QoSData::getInternalNextPacketId() const
-- 
2.43.0


From e15d4b877ff5ba838880740d9faf58933aada32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 09/40] fix: acks with unknown packet IDs don't affect other
 QoS exchanges

---
 mqttpacket.cpp |  3 ++-
 session.cpp    | 19 +++++++++++++------
 session.h      |  1 +
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 6eb9b2b..12fe7ca 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2415,7 +2415,8 @@ void MqttPacket::handlePubRec(std::shared_ptr<Client> &sender)
     // that contains that Packet Identifier as being a new Application Message."
     if (!publishTerminatesHere)
     {
-        sender->getSession()->addOutgoingQoS2MessageId(packet_id);
+        if (foundAndRemoved)
+            sender->getSession()->addOutgoingQoS2MessageId(packet_id);
 
         // MQTT5: "[The sender] MUST send a PUBREL packet when it receives a PUBREC packet from the receiver with a Reason Code value less than 0x80"
         const ReasonCodes reason = foundAndRemoved ? ReasonCodes::Success : ReasonCodes::PacketIdentifierNotFound;
diff --git a/session.cpp b/session.cpp
index 42c761b..bc03f0f 100644
--- a/session.cpp
+++ b/session.cpp
@@ -154,6 +154,14 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+/**
+ * @brief Whether the ID is of a publish that the client hasn't answered yet. For QoS 2, after PUBREC, it no longer is.
+ */
+bool Session::QoSData::awaitingFirstAck(const uint16_t id) const
+{
+    return usedIds.contains(id) && outgoingQoS2MessageIds.find(id) == outgoingQoS2MessageIds.end();
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
@@ -315,12 +323,11 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
     if (logger->wouldLog(LOG_PUBLISH))
         logger->logf(LOG_PUBLISH, "Clearing QoS message for '%s', packet id '%d'. Left in queue: %d", client_id.c_str(), packet_id, qos_locked->getQueuedCount());
 
-    if (!destroyOnDisconnect)
-        result = qos_locked->eraseQueuedPublish(packet_id);
-    else
-    {
-        result = true;
-    }
+    result = qos_locked->eraseQueuedPublish(packet_id);
+
+    // These sessions don't queue their publishes.
+    if (!result && destroyOnDisconnect)
+        result = qos_locked->awaitingFirstAck(packet_id);
 
     if (qosHandshakeEnds && result)
     {
diff --git a/session.h b/session.h
index 6dbcbac..da7d719 100644
--- a/session.h
+++ b/session.h
@@ -80,6 +80,7 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        bool awaitingFirstAck(const uint16_t id) const;
     };
 
     friend class SessionsAndSubscriptionsDB;
-- 
2.43.0


From 5bbd78385ac9c629f479d639f068c956f44f738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 10/40] fix: release the packet ID of QoS messages that exceed
 the client's packet size

---
 session.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/session.cpp b/session.cpp
index bc03f0f..a3e9a67 100644
--- a/session.cpp
+++ b/session.cpp
@@ -305,7 +305,14 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     if (!c->isRetainedAvailable())
         effectiveRetain = false;
 
-    return c->writeMqttPacketAndBlameThisClient(copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+    const PacketDropReason result = c->writeMqttPacketAndBlameThisClient(
+        copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+
+    // The client will never acknowledge it. It counts as completed (MQTT-3.1.2-25).
+    if (result == PacketDropReason::BiggerThanPacketLimit && pack_id)
+        clearQosMessage(pack_id.value(), true);
+
+    return result;
 }
 
 /**
@@ -403,7 +410,11 @@ void Session::sendAllPendingQosData()
             Publish &pub = std::get<Publish>(p);
             PublishCopyFactory fac(&pub);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+            const PacketDropReason result = c->writeMqttPacketAndBlameThisClient(
+                fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+
+            if (result == PacketDropReason::BiggerThanPacketLimit)
+                clearQosMessage(std::get<uint16_t>(p), true);
         }
 
         for(uint16_t id : copiedQoS2Ids)
-- 
2.43.0


From 7e866d5051138712a57de47067c6657c483bfd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 11/40] fix: keep packet IDs of unfinished QoS exchanges
 claimed after loading a session file

---
 session.cpp                    | 8 ++++++++
 session.h                      | 1 +
 sessionsandsubscriptionsdb.cpp | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/session.cpp b/session.cpp
index a3e9a67..b1b6760 100644
--- a/session.cpp
+++ b/session.cpp
@@ -154,6 +154,14 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+/**
+ * @brief For initial state loading, when the packet ID was claimed in a previous run.
+ */
+void Session::QoSData::markPacketIdUsed(const uint16_t id)
+{
+    usedIds.insert(id);
+}
+
 /**
  * @brief Whether the ID is of a publish that the client hasn't answered yet. For QoS 2, after PUBREC, it no longer is.
  */
diff --git a/session.h b/session.h
index da7d719..d5f93ce 100644
--- a/session.h
+++ b/session.h
@@ -80,6 +80,7 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        void markPacketIdUsed(const uint16_t id);
         bool awaitingFirstAck(const uint16_t id) const;
     };
 
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..be764f3 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -195,6 +195,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
                     qos_locked->queuePublish(std::move(pub), id, topic_override);
+                    qos_locked->markPacketIdUsed(id);
                 }
 
                 const uint32_t nrOfIncomingPacketIds = readUint32(eofFound);
@@ -215,6 +216,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded outgoing QoS2 message id %d.", id);
                     qos_locked->outgoingQoS2MessageIds.insert(id);
+                    qos_locked->markPacketIdUsed(id);
                 }
 
                 const uint16_t nextPacketId = readUint16(eofFound);
-- 
2.43.0


From 9201dc903dca3384a056d94256f7c6c06862e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 12/40] fix: do not run a delayed task that another task of the
 same run removed

performAll() took all due functions out of the list first, so a function that
called flashmq_remove_task() on another due task had no effect on it.
---
 queuedtasks.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/queuedtasks.cpp b/queuedtasks.cpp
index 35bdf2c..7b3395c 100644
--- a/queuedtasks.cpp
+++ b/queuedtasks.cpp
@@ -66,11 +66,11 @@ void QueuedTasks::performAll()
 {
     const auto now = std::chrono::steady_clock::now();
 
-    std::vector<std::shared_ptr<std::function<void()>>> functions;
+    std::vector<QueuedTask> dueTasks;
 
     for (auto pos = queuedTasks.begin(); pos != queuedTasks.end(); )
     {
-        if (pos->when > now || functions.size() > 0xFFFF)
+        if (pos->when > now || dueTasks.size() > 0xFFFF)
         {
             break;
         }
@@ -80,7 +80,7 @@ void QueuedTasks::performAll()
         const auto tpos = tasks.find(cur->id);
         if (tpos != tasks.end() && cur->f.lock() == tpos->second)
         {
-            functions.push_back(tpos->second);
+            dueTasks.push_back(*cur);
 
             if (cur->repeat)
             {
@@ -88,19 +88,26 @@ void QueuedTasks::performAll()
                 requeue.when = std::chrono::steady_clock::now() + requeue.interval;
                 queuedTasks.insert(requeue);
             }
-            else
-            {
-                tasks.erase(tpos);
-            }
         }
 
         queuedTasks.erase(cur);
     }
 
-    for(const std::shared_ptr<std::function<void()>> &f : functions)
+    for(const QueuedTask &task : dueTasks)
     {
         try
         {
+            const auto tpos = tasks.find(task.id);
+
+            // One of the functions we just called may have erased this task.
+            if (tpos == tasks.end() || task.f.lock() != tpos->second)
+                continue;
+
+            const std::shared_ptr<std::function<void()>> f = tpos->second;
+
+            if (!task.repeat)
+                tasks.erase(tpos);
+
             if (!f || !*f)
                 continue;
 
-- 
2.43.0


From d6fc7e660cf71e2160f10456e2096cb4a24a358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 13/40] fix: keep all bytes of the verification result in the
 HAProxy SSL field

Each byte overwrote the previous ones, so only the last byte was kept.
---
 haproxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haproxy.cpp b/haproxy.cpp
index ab68616..0cd4996 100644
--- a/haproxy.cpp
+++ b/haproxy.cpp
@@ -71,7 +71,7 @@ HaProxySslData read_ha_proxy_pp2_ssl(const std::vector<unsigned char> &data, int
 
     for (int shift = 24; shift >= 0; shift -= 8)
     {
-        result.verify = (data.at(pos++) << shift);
+        result.verify |= (static_cast<uint32_t>(data.at(pos++)) << shift);
     }
 
     auto sub_vec = make_vector<unsigned char>(data, pos, data.size() - pos);
-- 
2.43.0


From ec52d8e238f790b045c6fec61f381ec6f075cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 14/40] fix: accept the length zero in an extended websocket
 payload length

The marker value 126 or 127 was taken for the length instead, so that many
bytes of the following frames were swallowed.
---
 iowrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index c2e7cfa..3e47a72 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -847,7 +847,7 @@ ssize_t IoWrapper::websocketBytesToReadBuffer(void *buf, const size_t nbytes, Io
                 extendedPayloadLength += (byte << shift);
             }
 
-            if (extendedPayloadLength > 0)
+            if (extendedPayloadLengthLength > 0)
                 realPayloadLength = extendedPayloadLength;
 
             if (headerLength > websocketPendingBytes.usedBytes())
-- 
2.43.0


From 09b1ac0e0500532f008deb2066112a920c9a0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 15/40] fix: answer an empty websocket ping when exactly a
 header fits the buffer

---
 iowrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index 3e47a72..ace18b8 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -1008,7 +1008,7 @@ ssize_t IoWrapper::writeAsMuchOfBufAsWebsocketFrame(const void *buf, const size_
     const ssize_t nBytesReal = std::min<size_t>(nbytes, bodyBytesAvailable);
 
     // We normally wrap each write in a frame, but if a previous one didn't fit in the system's write buffers, we're still working on it.
-    if (websocketWriteRemainder.freeSpace() > WEBSOCKET_MAX_SENDING_HEADER_SIZE)
+    if (bytesFree >= WEBSOCKET_MAX_SENDING_HEADER_SIZE && (nBytesReal > 0 || nbytes == 0))
     {
         uint8_t extended_payload_length_num_bytes = 0;
         uint8_t payload_length = 0;
-- 
2.43.0


From 055f70be6870eb7cfb9a697ac634535dd9200f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 16/40] fix: do not lose websocket data received right before
 the end of the stream

When the peer's last frames and the end of the stream were read in one go and
the decoded bytes didn't fit the read buffer, the rest of them was discarded.
---
 iowrapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index ace18b8..8696c18 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -768,7 +768,10 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
 
     n = websocketBytesToReadBuffer(buf, nbytes, error);
 
-    if (*error != IoWrapResult::Disconnected)
+    // When the peer closed, but there are still bytes that didn't fit, the disconnect will come up again when all bytes have been given out.
+    const bool outputFull = n >= 0 && static_cast<size_t>(n) == nbytes && websocketPendingBytes.usedBytes() > 0;
+
+    if (*error != IoWrapResult::Disconnected || outputFull)
         *error = websocketPendingBytes.usedBytes() == 0 ? IoWrapResult::Wouldblock : IoWrapResult::WantRead;
 
     return n;
-- 
2.43.0


From 23cd550b53341e2cb5fa3dad40eeeed67441b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:06 +0000
Subject: [PATCH 17/40] fix: send the whole answer to a websocket handshake
 before using frames

When the socket didn't take the answer in one write, the rest of it was sent
as payload of a websocket frame.
---
 iowrapper.cpp | 14 +++++++++++++-
 iowrapper.h   |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index 8696c18..b0f84c2 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -738,6 +738,7 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
             std::string answer = generateWebsocketAnswer(acceptString, req_data.subprotocol.value());
             parentClient->writeText(answer);
             websocketState = WebsocketState::Upgrading;
+            upgradeAnswerBytesLeft = answer.size();
             websocketPendingBytes.reset();
             websocketPendingBytes.resetCapacity(initialBufferSize);
             *error = IoWrapResult::Success;
@@ -1074,7 +1075,18 @@ ssize_t IoWrapper::writeWebsocketAndOrSsl(int fd, const void *buf, size_t nbytes
     if (websocketState != WebsocketState::Upgraded)
     {
         if (connectionProtocol == ConnectionProtocol::WebsocketMqtt && websocketState == WebsocketState::Upgrading)
-            websocketState = WebsocketState::Upgraded;
+        {
+            // The HTTP answer may need several writes. Only what comes after it goes in websocket frames.
+            const ssize_t n = writeOrSslWrite(fd, buf, std::min<size_t>(nbytes, upgradeAnswerBytesLeft), error);
+
+            if (n > 0)
+                upgradeAnswerBytesLeft -= n;
+
+            if (upgradeAnswerBytesLeft == 0)
+                websocketState = WebsocketState::Upgraded;
+
+            return n;
+        }
 
         return writeOrSslWrite(fd, buf, nbytes, error);
     }
diff --git a/iowrapper.h b/iowrapper.h
index 62c4ac4..75cedec 100644
--- a/iowrapper.h
+++ b/iowrapper.h
@@ -117,6 +117,7 @@ class IoWrapper
 
     ConnectionProtocol connectionProtocol;
     WebsocketState websocketState = WebsocketState::NotUpgraded;
+    size_t upgradeAnswerBytesLeft = 0;
     CirBuf websocketPendingBytes;
     IncompleteWebsocketRead incompleteWebsocketRead;
     CirBuf websocketWriteRemainder;
-- 
2.43.0


From d20e56ccac7a2728e7187017f79f928a58297f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 18/40] fix: wait for the end of the last line of a websocket
 handshake

---
 http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http.cpp b/http.cpp
index bbf5141..c5beae4 100644
--- a/http.cpp
+++ b/http.cpp
@@ -101,6 +101,10 @@ std::optional<HttpRequest> parseHttpHeader(CirBuf &buf)
         std::istringstream is(s);
         for (std::string line; std::getline(is, line);)
         {
+            // The line end has not been received yet.
+            if (is.eof())
+                break;
+
             trim(line);
 
             if (line.empty())
-- 
2.43.0


From 639ddb00ceac597e5a7dee95b7f5172106fc65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 19/40] fix: update the address family when replacing a
 client's address

---
 fmqsockaddr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fmqsockaddr.cpp b/fmqsockaddr.cpp
index b80d293..bcca172 100644
--- a/fmqsockaddr.cpp
+++ b/fmqsockaddr.cpp
@@ -102,6 +102,7 @@ void FMQSockaddr::setAddress(const std::string &address)
             addr.sin_family = AF_INET;
 
             memcpy(dat.data(), &addr, sizeof(addr));
+            family = AF_INET;
             text = sockaddrToString(getSockaddr());
 
             return;
@@ -119,6 +120,7 @@ void FMQSockaddr::setAddress(const std::string &address)
             addr.sin6_family = AF_INET6;
 
             memcpy(dat.data(), &addr, sizeof(addr));
+            family = AF_INET6;
             text = sockaddrToString(getSockaddr());
         }
     }
-- 
2.43.0


From 3671df3b2595e49e627679ca9af2c98628e8bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 20/40] fix: placeholders of ACL patterns don't stand for
 themselves nor for absent names

---
 acltree.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/acltree.cpp b/acltree.cpp
index d0952b9..d3a53f4 100644
--- a/acltree.cpp
+++ b/acltree.cpp
@@ -195,19 +195,23 @@ void AclTree::findPermissionRecursive(std::vector<std::string>::const_iterator c
 
     const auto next_subtopic_it = ++cur_published_subtopic_it;
 
-    if (this_node->hasChild(cur_published_subtop))
+    // The place holders of a pattern stand for the client's own name, not for themselves.
+    const bool is_placeholder = (this_node->hasUserWildcard() && cur_published_subtop == "%u") ||
+                                (this_node->hasClientidWildcard() && cur_published_subtop == "%c");
+
+    if (!is_placeholder && this_node->hasChild(cur_published_subtop))
     {
         const AclNode *sub_node = this_node->getChildren(cur_published_subtop);
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
     }
 
-    if (this_node->hasUserWildcard() && cur_published_subtop == username)
+    if (this_node->hasUserWildcard() && !username.empty() && cur_published_subtop == username)
     {
         const AclNode *sub_node = this_node->getChildren("%u");
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
     }
 
-    if (this_node->hasClientidWildcard() && cur_published_subtop == clientid)
+    if (this_node->hasClientidWildcard() && !clientid.empty() && cur_published_subtop == clientid)
     {
         const AclNode *sub_node = this_node->getChildren("%c");
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
-- 
2.43.0


From 8413c7ab5c9814e0a0bdb15ae43fa6a1580ab61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 21/40] fix: registering a will needs write access in the ACL
 file, not read access

---
 plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index cc678da..ba21c38 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -894,7 +894,8 @@ AuthResult Authentication::aclCheckFromMosquittoAclFile(const std::string &clien
     if (access == AclAccess::subscribe)
         return AuthResult::success;
 
-    AclGrant ag = access == AclAccess::write ? AclGrant::Write : AclGrant::Read;
+    // A will is going to be published, so registering one needs write access.
+    AclGrant ag = access == AclAccess::read ? AclGrant::Read : AclGrant::Write;
     AuthResult result = aclTree.findPermission(subtopics, ag, username, clientid);
     return result;
 }
-- 
2.43.0


From 183358addf1ec185b8dd4e8681e509918a81336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:16 +0000
Subject: [PATCH 22/40] fix: also resend queued messages for which the plugin
 said success_without_setting_retained

---
 session.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session.cpp b/session.cpp
index b1b6760..cd16e43 100644
--- a/session.cpp
+++ b/session.cpp
@@ -387,7 +387,9 @@ void Session::sendAllPendingQosData()
 
                 Publish &pub = qp->getPublish();
 
-                if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
+                const AuthResult aclResult = pub.hasExpired() ? AuthResult::acl_denied : authentication.aclCheck(pub, pub.payload);
+
+                if (aclResult != AuthResult::success && aclResult != AuthResult::success_without_setting_retained)
                 {
                     qos_locked->eraseQueuedPublish(qp->getPacketId());
                     qos_locked->releasePacketId(qp->getPacketId());
-- 
2.43.0


From 565051c1aa196fc18c68e4b5e988c13f4a75fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:48 +0000
Subject: [PATCH 23/40] fix: free the packet ID of a QoS 2 publish that is
 refused with an MQTT5 reason code

---
 mqttpacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 12fe7ca..bb7d73c 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2328,6 +2328,10 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         else
         {
             ackSender.setAckCode(ReasonCodes::NotAuthorized);
+
+            // A PUBREC with an error ends the exchange, and the packet ID can be used for a new message [MQTT-4.3.3-9].
+            if (qos_org == 2 && this->protocolVersion >= ProtocolVersion::Mqtt5)
+                sender->getSession()->removeIncomingQoS2MessageId(_packet_id);
         }
     }
 
-- 
2.43.0


From 420a52e65b831e241a1f5871d1600d457851139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:05 +0000
Subject: [PATCH 24/40] fix: the end of a taken over connection must not remove
 or expire the session of the new one

---
 threaddata.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..42731b8 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -437,13 +437,19 @@ void ThreadData::clientDisconnectActions(
         store->queueOrSendWillMessage(willPublish, session);
     }
 
-    if (session && session->getDestroyOnDisconnect())
-    {
-        store->removeSession(session);
-    }
-    else
+    // When another connection took over the session, it's that connection that determines when it ends.
+    const bool takenOver = session && session->hasActiveClient();
+
+    if (!takenOver)
     {
-        store->queueSessionRemoval(session);
+        if (session && session->getDestroyOnDisconnect())
+        {
+            store->removeSession(session);
+        }
+        else
+        {
+            store->queueSessionRemoval(session);
+        }
     }
 
     if (authenticated)
-- 
2.43.0


From 5e7efe7dcb6a74b5ea52f4bb4cd7c3e415b9794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:05 +0000
Subject: [PATCH 25/40] fix: a connection clears only its own will from the
 session, not that of the connection that took it over

---
 client.cpp            | 6 +++---
 session.cpp           | 8 ++++++--
 session.h             | 2 +-
 subscriptionstore.cpp | 4 +++-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/client.cpp b/client.cpp
index 840fda6..5ff7524 100644
--- a/client.cpp
+++ b/client.cpp
@@ -1217,11 +1217,11 @@ const std::optional<std::string> &Client::getRemotePrefix() const
 
 void Client::clearWill()
 {
+    if (session)
+        session->clearWill(willPublish);
+
     willPublish.reset();
     stagedWillPublish.reset();
-
-    if (session)
-        session->clearWill();
 }
 
 std::string Client::getClientIdOrPrefix() const
diff --git a/session.cpp b/session.cpp
index cd16e43..8a91f99 100644
--- a/session.cpp
+++ b/session.cpp
@@ -441,9 +441,13 @@ bool Session::hasActiveClient()
     return !client.expired();
 }
 
-void Session::clearWill()
+/**
+ * @brief Session::clearWill clears the will if it's the one specified. It's not when another connection took over the session.
+ */
+void Session::clearWill(const std::shared_ptr<WillPublish> &will)
 {
-    this->willPublish.reset();
+    if (this->willPublish.getCopy() == will)
+        this->willPublish.reset();
 }
 
 std::shared_ptr<WillPublish> Session::getWill()
diff --git a/session.h b/session.h
index d5f93ce..850f4b1 100644
--- a/session.h
+++ b/session.h
@@ -131,7 +131,7 @@ public:
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
     void sendAllPendingQosData();
     bool hasActiveClient();
-    void clearWill();
+    void clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index c1ce654..412fd17 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -398,8 +398,10 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      * Avoid sending two immediate wills when a session is destroyed with the client disconnect.
      * Session is null when you're destroying a client before a session is assigned, or
      * when an old client has no session anymore after a client with the same ID connects.
+     *
+     * But, if the session has been taken over, it contains the will of the new connection.
      */
-    session->clearWill();
+    session->clearWill(will);
 
     const Settings *settings = ThreadGlobals::getSettings();
 
-- 
2.43.0


From b05d0e9b74d14e2cfe1467143722211ea1082cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:05 +0000
Subject: [PATCH 26/40] fix: ignore the session expiry interval in a DISCONNECT
 of a connection whose session was taken over

---
 mqttpacket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index bb7d73c..5a068e2 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1698,7 +1698,7 @@ void MqttPacket::handleDisconnect(std::shared_ptr<Client> &sender)
     if (data.session_expiry_interval_set)
     {
         const std::shared_ptr<Session> session = sender->getSession();
-        if (session)
+        if (session && session->makeSharedClient() == sender) // It may have been taken over.
             session->setSessionExpiryInterval(data.session_expiry_interval);
     }
 
-- 
2.43.0


From 02e56000d43bd55485a6181e023bc8198bb610a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:22 +0000
Subject: [PATCH 27/40] fix: don't expire a session based on an earlier
 disconnect than its last one

---
 session.cpp           | 9 +++++++++
 session.h             | 1 +
 subscriptionstore.cpp | 8 ++++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/session.cpp b/session.cpp
index 8a91f99..e33c139 100644
--- a/session.cpp
+++ b/session.cpp
@@ -593,6 +593,15 @@ void Session::setQueuedRemovalAt()
     this->removalQueued = true;
 }
 
+/**
+ * @brief Session::getRemovalDueAt gives the second (of the steady clock) in which the session should be removed, counted from its last disconnect.
+ */
+std::chrono::seconds Session::getRemovalDueAt() const
+{
+    const std::chrono::time_point<std::chrono::steady_clock> removeAt = this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);
+    return std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
+}
+
 uint32_t Session::getSessionExpiryInterval() const
 {
     return this->sessionExpiryInterval;
diff --git a/session.h b/session.h
index 850f4b1..7961869 100644
--- a/session.h
+++ b/session.h
@@ -151,6 +151,7 @@ public:
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
     void setQueuedRemovalAt();
+    std::chrono::seconds getRemovalDueAt() const;
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
 
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 412fd17..98f8e29 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1303,8 +1303,9 @@ void SubscriptionStore::removeExpiredSessionsClients()
             {
                 std::shared_ptr<Session> lockedSession = ses.lock();
 
-                // A session could have been picked up again, so we have to verify its expiration status.
-                if (lockedSession && !lockedSession->hasActiveClient())
+                // A session could have been picked up again, so we have to verify its expiration status. It could even have been
+                // left again after that, in which case there is a later entry for it.
+                if (lockedSession && !lockedSession->hasActiveClient() && lockedSession->getRemovalDueAt() <= secondsSinceEpoch)
                 {
                     sessionsToRemove.push_back(lockedSession);
                 }
@@ -1446,9 +1447,8 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
     if (!session)
         return;
 
-    std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
-    std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
     session->setQueuedRemovalAt();
+    const std::chrono::seconds secondsSinceEpoch = session->getRemovalDueAt();
 
     std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);
     queuedSessionRemovals[secondsSinceEpoch].push_back(session);
-- 
2.43.0


From 036b32af79826eafe0963222bfe1d3cd33abb31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 28/40] fix: keep checking connections that have not logged in
 when they were active at the first check

---
 threaddata.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index 42731b8..f04fc29 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -1257,6 +1257,9 @@ void ThreadData::doKeepAliveCheck()
 
         std::vector<std::shared_ptr<Client>> clientsToRecheck;
 
+        // Those that still haven't logged in.
+        std::vector<std::shared_ptr<Client>> unauthenticatedToRecheck;
+
         int slotsTotal = 0;
         int slotsProcessed = 0;
         int clientsChecked = 0;
@@ -1298,6 +1301,10 @@ void ThreadData::doKeepAliveCheck()
                         {
                             clientsToRecheck.push_back(client);
                         }
+                        else if (!client->getAuthenticated())
+                        {
+                            unauthenticatedToRecheck.push_back(client);
+                        }
                     }
                 }
 
@@ -1309,6 +1316,11 @@ void ThreadData::doKeepAliveCheck()
                 c->resetBuffersIfEligible();
                 queueClientNextKeepAliveCheck(c, true);
             }
+
+            for (std::shared_ptr<Client> &c : unauthenticatedToRecheck)
+            {
+                queueClientNextKeepAliveCheck(c, false);
+            }
         }
 
         logger->logf(LOG_DEBUG, "Checked %d clients in %d of %d keep-alive slots in thread %d", clientsChecked, slotsProcessed, slotsTotal, threadnr);
-- 
2.43.0


From e39279c54973c7d9d4327f39af17d8c058dc2bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 29/40] fix: base the first keep-alive check of a client on its
 own keep-alive

---
 subscriptionstore.cpp | 2 --
 threaddata.cpp        | 1 +
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 98f8e29..d01e5f4 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -323,8 +323,6 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 // Removes an existing client when it already exists [MQTT-3.1.4-2].
 void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client> &client, bool clean_start, uint16_t clientReceiveMax, uint32_t sessionExpiryInterval)
 {
-    ThreadGlobals::getThreadData()->queueClientNextKeepAliveCheck(client, true);
-
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
 
diff --git a/threaddata.cpp b/threaddata.cpp
index f04fc29..6d5ec4b 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -222,6 +222,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->sendConnackSuccess();
             client->setAuthenticated(true);
+            queueClientNextKeepAliveCheck(client, true);
             client->getSession()->sendAllPendingQosData();
             client->handleAfterAsyncQueue(client);
         }
-- 
2.43.0


From 591c3f83274542a78010f2b09151bc4242971927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:20 +0000
Subject: [PATCH 30/40] fix: load queued messages that have a subscription
 identifier

---
 mqttpacket.cpp                 | 16 ++++++++++------
 mqttpacket.h                   |  2 +-
 sessionsandsubscriptionsdb.cpp |  2 +-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 5a068e2..b1ca483 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2027,7 +2027,7 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
     sender->writeMqttPacket(response);
 }
 
-void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
+void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromStorage)
 {
     assert(externallyReceived);
 
@@ -2153,14 +2153,18 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
 
                 dontReuseBites = true;
 
+                const uint32_t subscriptionIdentifier = decodeVariableByteIntAtPos();
+
+                // Stored queued messages have the identifier of the subscription they were queued for. Otherwise,
+                // we don't store it, because it should not propagate.
+                if (fromStorage)
+                    publishData.subscriptionIdentifier = subscriptionIdentifier;
+
 #ifndef TESTING
-                if (sender->getClientType() != ClientType::LocalBridge)
+                if (!fromStorage && sender->getClientType() != ClientType::LocalBridge)
                     throw ProtocolError("Subscription identifiers cannot be sent to servers.", ReasonCodes::ProtocolError);
-
-                // We don't store it, because it should not propagate.
-                decodeVariableByteIntAtPos();
 #else
-                publishData.subscriptionIdentifierTesting = decodeVariableByteIntAtPos();
+                publishData.subscriptionIdentifierTesting = subscriptionIdentifier;
 #endif
 
                 break;
diff --git a/mqttpacket.h b/mqttpacket.h
index a868296..bfd8a7a 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -151,7 +151,7 @@ public:
     void handleSubAck(std::shared_ptr<Client> &sender);
     void handleUnsubscribe(std::shared_ptr<Client> &sender);
     void handlePing(std::shared_ptr<Client> &sender);
-    void parsePublishData(std::shared_ptr<Client> &sender);
+    void parsePublishData(std::shared_ptr<Client> &sender, bool fromStorage=false);
     void handlePublish(std::shared_ptr<Client> &sender);
     void parsePubAckData();
     void handlePubAck(std::shared_ptr<Client> &sender);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index be764f3..8ab78b8 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -182,7 +182,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     cirbuf.advanceHead(packlen);
                     MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-                    pack.parsePublishData(dummyClient);
+                    pack.parsePublishData(dummyClient, true);
                     Publish pub(pack.getPublishData());
 
                     pub.client_id = sender_clientid;
-- 
2.43.0


From e4e0dc6fa97f1378167fc0e99234141c94bf9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:20 +0000
Subject: [PATCH 31/40] fix: don't subtract a message's age twice from its
 expiry interval when loading it

---
 retainedmessagesdb.cpp         | 6 +++++-
 sessionsandsubscriptionsdb.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..b861dc9 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -222,7 +222,11 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         pub.username = username;
 
         if (pub.expireInfo)
-            pub.expireInfo.value().createdAt = timepointFromAge(newPubAge);
+        {
+            // The saved packet has what was left of the interval when it was saved, so that's what the time since then counts against.
+            const bool somethingLeft = pub.expireInfo.value().expiresAfter.count() > 0;
+            pub.expireInfo.value().createdAt = timepointFromAge(somethingLeft ? persistence_state_age : newPubAge);
+        }
 
         RetainedMessage msg(pub);
         if (logger->wouldLog(LOG_DEBUG))
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 8ab78b8..06ce7cc 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -190,7 +190,11 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
                     const uint32_t newPubAge = persistence_state_age + originalPubAge;
                     if (pub.expireInfo)
-                        pub.expireInfo->createdAt = timepointFromAge(newPubAge);
+                    {
+                        // The saved packet has what was left of the interval when it was saved, so that's what the time since then counts against.
+                        const bool somethingLeft = pub.expireInfo->expiresAfter.count() > 0;
+                        pub.expireInfo->createdAt = timepointFromAge(somethingLeft ? persistence_state_age : newPubAge);
+                    }
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
-- 
2.43.0


From 860f4eae8b30ce3383dff470eeae06ca5cfcf937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:20 +0000
Subject: [PATCH 32/40] fix: save the whole expiry interval of a will

---
 sessionsandsubscriptionsdb.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 06ce7cc..78f0c18 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -419,7 +419,12 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
 
             if (hasWillThatShouldSurviveRestart)
             {
-                MqttPacket willpacket(ProtocolVersion::Mqtt5, *will);
+                // The expiry interval of a will only starts when it's published.
+                Publish willcopy(*will);
+                if (willcopy.expireInfo)
+                    willcopy.expireInfo->createdAt = std::chrono::steady_clock::now();
+
+                MqttPacket willpacket(ProtocolVersion::Mqtt5, willcopy);
 
                 // Dummy, to please the parser on reading.
                 if (will->qos > 0)
-- 
2.43.0


From 9de907eb5c8ee2f671e1c13327d282d292080eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:20 +0000
Subject: [PATCH 33/40] fix: don't sign-extend the lower half when reading a 64
 bit number from a state file

---
 persistencefile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..11b14ce 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -254,8 +254,8 @@ int64_t PersistenceFile::readInt64(bool &eofFound)
         eofFound = true;
 
     unsigned char *buf_ = buf.data();
-    const uint64_t val1 = ((buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
-    const uint64_t val2 = ((buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
+    const uint64_t val1 = static_cast<uint32_t>(((buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]));
+    const uint64_t val2 = static_cast<uint32_t>(((buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]));
     const int64_t val = (val1 << 32) | val2;
     return val;
 }
-- 
2.43.0


From 358aedbc7bb5d73b979fd906959394eb5dd615d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:21 +0000
Subject: [PATCH 34/40] fix: don't replace a state file with an incomplete one,
 or terminate, when saving it fails

---
 persistencefile.cpp    | 61 ++++++++++++++++++++++++++++++++----------
 persistencefile.h      |  3 +++
 retainedmessagesdb.cpp | 17 +++++++++---
 3 files changed, 64 insertions(+), 17 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 11b14ce..892227d 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -44,6 +44,9 @@ PersistenceFile::~PersistenceFile()
 {
     try
     {
+        if (savingFailed())
+            dontSaveTmpFile();
+
         closeFile();
     }
     catch(std::exception &ex)
@@ -70,6 +73,14 @@ void PersistenceFile::writeCheck(const void *ptr, size_t size, size_t n, FILE *s
     }
 }
 
+void PersistenceFile::seekCheck(long offset, int whence)
+{
+    if (fseek(f, offset, whence) != 0)
+    {
+        throw std::runtime_error(formatString("Error seeking: %s", strerror(errno)));
+    }
+}
+
 ssize_t PersistenceFile::readCheck(void *ptr, size_t size, size_t n, FILE *stream)
 {
     size_t nread = fread(ptr, size, n, stream);
@@ -89,7 +100,7 @@ void PersistenceFile::hashFile()
 {
     logger->logf(LOG_DEBUG, "Calculating and saving hash of '%s'.", filePath.c_str());
 
-    fseek(f, TOTAL_HEADER_SIZE, SEEK_SET);
+    seekCheck(TOTAL_HEADER_SIZE, SEEK_SET);
 
     unsigned int output_len = 0;
     unsigned char md_value[EVP_MAX_MD_SIZE];
@@ -101,6 +112,10 @@ void PersistenceFile::hashFile()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading: %s", strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -109,14 +124,14 @@ void PersistenceFile::hashFile()
     if (output_len != HASH_SIZE)
         throw std::runtime_error("Impossible: calculated hash size wrong length");
 
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    seekCheck(MAGIC_STRING_LENGH, SEEK_SET);
 
     writeCheck(md_value, output_len, 1, f);
 }
 
 void PersistenceFile::verifyHash()
 {
-    fseek(f, 0, SEEK_END);
+    seekCheck(0, SEEK_END);
     const size_t size = ftell(f);
 
     if (size < TOTAL_HEADER_SIZE)
@@ -125,7 +140,7 @@ void PersistenceFile::verifyHash()
     unsigned char md_from_disk[HASH_SIZE];
     std::memset(md_from_disk, 0, HASH_SIZE);
 
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    seekCheck(MAGIC_STRING_LENGH, SEEK_SET);
     readCheck(md_from_disk, 1, HASH_SIZE, f);
 
     unsigned int output_len = 0;
@@ -138,6 +153,10 @@ void PersistenceFile::verifyHash()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading: %s", strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -339,11 +358,12 @@ void PersistenceFile::openWrite(const std::string &versionString)
     }
 
     openMode = FileMode::write;
+    exceptionsAtOpen = std::uncaught_exceptions();
 
     writeCheck(buf.data(), 1, MAGIC_STRING_LENGH, f);
-    rewind(f);
+    seekCheck(0, SEEK_SET);
     writeCheck(versionString.c_str(), 1, versionString.length(), f);
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    seekCheck(MAGIC_STRING_LENGH, SEEK_SET);
     writeCheck(buf.data(), 1, HASH_SIZE, f);
 }
 
@@ -360,7 +380,7 @@ void PersistenceFile::openRead(const std::string &expected_version_string)
     openMode = FileMode::read;
 
     verifyHash();
-    rewind(f);
+    seekCheck(0, SEEK_SET);
 
     readCheck(buf.data(), 1, MAGIC_STRING_LENGH, f);
     const auto magic_string_0_pos = std::find(buf.begin(), buf.end(), 0);
@@ -408,7 +428,15 @@ void PersistenceFile::openRead(const std::string &expected_version_string)
         }
     }
 
-    fseek(f, TOTAL_HEADER_SIZE, SEEK_SET);
+    seekCheck(TOTAL_HEADER_SIZE, SEEK_SET);
+}
+
+/**
+ * @brief PersistenceFile::savingFailed says whether the file is being closed because of an exception, so that the contents are incomplete.
+ */
+bool PersistenceFile::savingFailed() const
+{
+    return openMode == FileMode::write && std::uncaught_exceptions() > exceptionsAtOpen;
 }
 
 void PersistenceFile::dontSaveTmpFile()
@@ -421,18 +449,23 @@ void PersistenceFile::closeFile()
     if (!f)
         return;
 
-    if (openMode == FileMode::write)
+    if (openMode == FileMode::write && !discard)
     {
-        if (!discard)
-            hashFile();
+        hashFile();
 
-        if (fflush(f) != 0)
+        if (fflush(f) != 0 || ferror(f))
         {
             std::string msg(strerror(errno));
+            dontSaveTmpFile();
             throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
         }
 
-        fsync(f->_fileno);
+        if (fsync(f->_fileno) != 0)
+        {
+            std::string msg(strerror(errno));
+            dontSaveTmpFile();
+            throw std::runtime_error(formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+        }
     }
 
     if (f != nullptr)
@@ -440,7 +473,7 @@ void PersistenceFile::closeFile()
         FILE *f2 = f;
         f = nullptr;
 
-        if (fclose(f2) < 0)
+        if (fclose(f2) < 0 && !discard)
         {
             std::string msg(strerror(errno));
             throw std::runtime_error(formatString("Close of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
diff --git a/persistencefile.h b/persistencefile.h
index d297a71..2d76e59 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -43,6 +43,7 @@ class PersistenceFile
     std::string filePathCorrupt;
     std::string dirPath;
     bool discard = false;
+    int exceptionsAtOpen = 0;
 
     std::unique_ptr<EVP_MD_CTX, void(*)(EVP_MD_CTX*)> digestContext;
     const EVP_MD *sha512 = EVP_sha512();
@@ -65,9 +66,11 @@ protected:
 
     Logger *logger = Logger::getInstance();
 
+    bool savingFailed() const;
     void makeSureBufSize(size_t n);
 
     void writeCheck(const void *__restrict __ptr, size_t __size, size_t __n, FILE *__restrict __s);
+    void seekCheck(long offset, int whence);
     ssize_t readCheck(void *__restrict ptr, size_t size, size_t n, FILE *__restrict stream);
 
     void writeInt64(const int64_t val);
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index b861dc9..7b8b9a1 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,18 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        if (savingFailed())
+            dontSaveTmpFile();
+
+        closeFile();
+    }
+    catch(std::exception &ex)
+    {
+        logger->log(LOG_ERROR) << ex.what();
+        dontSaveTmpFile();
+    }
 }
 
 void RetainedMessagesDB::openWrite()
@@ -87,7 +98,7 @@ void RetainedMessagesDB::openRead()
     if (eofFound)
         throw std::runtime_error("Error reading retained messages file message count: eof reached.");
 
-    fseek(f, RESERVED_SPACE_RETAINED_DB_V2, SEEK_CUR);
+    seekCheck(RESERVED_SPACE_RETAINED_DB_V2, SEEK_CUR);
 }
 
 void RetainedMessagesDB::closeFile()
@@ -97,7 +108,7 @@ void RetainedMessagesDB::closeFile()
 
     if (openMode == FileMode::write && length_pos > 0 && written_count > 0)
     {
-        fseek(f, length_pos, SEEK_SET);
+        seekCheck(length_pos, SEEK_SET);
         writeUint32(written_count);
     }
 
-- 
2.43.0


From d3362ca0eed4fd1b84ff3c9c616e28ba7e198e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:22 +0000
Subject: [PATCH 35/40] fix: don't read beyond buffers, or keep going after the
 end of the file, when loading nonsensical state files

---
 bridgeinfodb.cpp               |  3 +++
 persistencefile.cpp            | 29 ++++++++++++++++++++++++++---
 persistencefile.h              |  3 +++
 retainedmessagesdb.cpp         |  7 +------
 sessionsandsubscriptionsdb.cpp | 32 +++++++++++++++++---------------
 5 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/bridgeinfodb.cpp b/bridgeinfodb.cpp
index 9c6df2c..82dec1f 100644
--- a/bridgeinfodb.cpp
+++ b/bridgeinfodb.cpp
@@ -87,6 +87,9 @@ std::list<BridgeInfoForSerializing> BridgeInfoDb::readInfo()
             if (readVersion >= ReadVersion::v2)
                 r.client_group_share_name = readString(eofFound);
 
+            if (eofFound)
+                throw std::runtime_error("Error reading bridge info: unexpected end of file");
+
             result.push_back(std::move(r));
         }
 
diff --git a/persistencefile.cpp b/persistencefile.cpp
index 892227d..2bf7ac2 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -132,9 +132,9 @@ void PersistenceFile::hashFile()
 void PersistenceFile::verifyHash()
 {
     seekCheck(0, SEEK_END);
-    const size_t size = ftell(f);
+    this->fileSize = ftell(f);
 
-    if (size < TOTAL_HEADER_SIZE)
+    if (this->fileSize < TOTAL_HEADER_SIZE)
         throw std::runtime_error(formatString("File '%s' is too small for it even to contain a header.", filePath.c_str()));
 
     unsigned char md_from_disk[HASH_SIZE];
@@ -319,11 +319,34 @@ std::string PersistenceFile::readString(bool &eofFound)
         throw std::runtime_error("In MQTT world, strings are never longer than 65535 bytes.");
 
     makeSureBufSize(size);
-    readCheck(buf.data(), 1, size, f);
+
+    if (size > 0 && readCheck(buf.data(), 1, size, f) < 0)
+        throw std::runtime_error(formatString("Error reading '%s': unexpected end of file.", filePath.c_str()));
+
     std::string result = make_string(buf, 0, size);
     return result;
 }
 
+/**
+ * @brief PersistenceFile::readPacket reads the bytes of a saved packet. The space for the fixed header is included.
+ */
+std::vector<char> PersistenceFile::readPacket(CirBuf &cirbuf, const uint32_t packlen, const uint16_t fixed_header_length)
+{
+    const long cur_pos = ftell(f);
+
+    if (cur_pos < 0 || packlen > fileSize - cur_pos || packlen < fixed_header_length)
+        throw std::runtime_error(formatString("Error reading '%s': impossible packet length.", filePath.c_str()));
+
+    cirbuf.reset();
+    cirbuf.ensureFreeSpace(static_cast<size_t>(packlen) + 32);
+
+    if (packlen > 0 && readCheck(cirbuf.headPtr(), 1, packlen, f) < 0)
+        throw std::runtime_error(formatString("Error reading '%s': unexpected end of file.", filePath.c_str()));
+
+    cirbuf.advanceHead(packlen);
+    return cirbuf.readToVector(packlen);
+}
+
 std::optional<std::string> PersistenceFile::readOptionalString(bool &eofFound)
 {
     uint8_t x = readUint8(eofFound);
diff --git a/persistencefile.h b/persistencefile.h
index 2d76e59..5c1c8df 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -22,6 +22,7 @@ See LICENSE for license details.
 #include <memory>
 
 #include "logger.h"
+#include "cirbuf.h"
 
 #define MAGIC_STRING_LENGH 32
 #define HASH_SIZE 64
@@ -44,6 +45,7 @@ class PersistenceFile
     std::string dirPath;
     bool discard = false;
     int exceptionsAtOpen = 0;
+    size_t fileSize = 0;
 
     std::unique_ptr<EVP_MD_CTX, void(*)(EVP_MD_CTX*)> digestContext;
     const EVP_MD *sha512 = EVP_sha512();
@@ -85,6 +87,7 @@ protected:
     uint8_t readUint8(bool &eofFound);
     std::string readString(bool &eofFound);
     std::optional<std::string> readOptionalString(bool &eofFound);
+    std::vector<char> readPacket(CirBuf &cirbuf, const uint32_t packlen, const uint16_t fixed_header_length);
 
 public:
     PersistenceFile(const std::string &filePath);
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7b8b9a1..2550006 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -219,12 +219,7 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         if (eofFound)
             throw std::runtime_error("Error reading retained messages: unexpected end of file");
 
-        cirbuf.reset();
-        cirbuf.ensureFreeSpace(packlen + 32);
-
-        readCheck(cirbuf.headPtr(), 1, packlen, f);
-        cirbuf.advanceHead(packlen);
-        MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
+        MqttPacket pack(readPacket(cirbuf, packlen, fixed_header_length), fixed_header_length, dummyClient);
 
         pack.parsePublishData(dummyClient);
         Publish pub(pack.getPublishData());
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 78f0c18..1cd1756 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -173,14 +173,10 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (readVersion >= ReadVersion::v7)
                         topic_override = readOptionalString(eofFound);
 
-                    assert(id > 0);
+                    if (eofFound || id == 0)
+                        throw std::runtime_error("Error reading sessions: unexpected end of file or packet ID 0");
 
-                    cirbuf.reset();
-                    cirbuf.ensureFreeSpace(packlen + 32);
-
-                    readCheck(cirbuf.headPtr(), 1, packlen, f);
-                    cirbuf.advanceHead(packlen);
-                    MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
+                    MqttPacket pack(readPacket(cirbuf, packlen, fixed_header_length), fixed_header_length, dummyClient);
 
                     pack.parsePublishData(dummyClient, true);
                     Publish pub(pack.getPublishData());
@@ -206,7 +202,8 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 for (uint32_t i = 0; i < nrOfIncomingPacketIds; i++)
                 {
                     uint16_t id = readUint16(eofFound);
-                    assert(id > 0);
+                    if (eofFound || id == 0)
+                        throw std::runtime_error("Error reading sessions: unexpected end of file or packet ID 0");
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded incomming QoS2 message id %d.", id);
                     qos_locked->incomingQoS2MessageIds.insert(id);
@@ -216,7 +213,8 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 for (uint32_t i = 0; i < nrOfOutgoingPacketIds; i++)
                 {
                     uint16_t id = readUint16(eofFound);
-                    assert(id > 0);
+                    if (eofFound || id == 0)
+                        throw std::runtime_error("Error reading sessions: unexpected end of file or packet ID 0");
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded outgoing QoS2 message id %d.", id);
                     qos_locked->outgoingQoS2MessageIds.insert(id);
@@ -240,6 +238,9 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
             const uint16_t hasWill = readUint16(eofFound);
 
+            if (eofFound)
+                throw std::runtime_error("Error reading sessions: unexpected end of file");
+
             if (hasWill)
             {
                 const uint16_t fixed_header_length = readUint16(eofFound);
@@ -253,12 +254,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 const uint32_t stateAgecompensatedWillDelay =
                         persistence_state_age > newWillDelayAfterMaybeAlreadyBeingQueued ? 0 : newWillDelayAfterMaybeAlreadyBeingQueued - persistence_state_age;
 
-                cirbuf.reset();
-                cirbuf.ensureFreeSpace(packlen + 32);
-
-                readCheck(cirbuf.headPtr(), 1, packlen, f);
-                cirbuf.advanceHead(packlen);
-                MqttPacket publishpack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
+                MqttPacket publishpack(readPacket(cirbuf, packlen, fixed_header_length), fixed_header_length, dummyClient);
                 publishpack.parsePublishData(dummyClient);
                 WillPublish willPublish = publishpack.getPublishData();
                 willPublish.will_delay = stateAgecompensatedWillDelay;
@@ -281,6 +277,9 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
             const uint32_t nrOfClientIds = readUint32(eofFound);
 
+            if (eofFound)
+                throw std::runtime_error("Error reading subscriptions: unexpected end of file");
+
             for (uint32_t i = 0; i < nrOfClientIds; i++)
             {
                 std::string sharename;
@@ -297,6 +296,9 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 if (logger->wouldLog(LOG_DEBUG))
                     logger->logf(LOG_DEBUG, "Loading session '%s' subscription to '%s' QoS %d.", clientId.c_str(), topic.c_str(), subscriptionOptions.getQos());
 
+                if (eofFound)
+                    throw std::runtime_error("Error reading subscriptions: unexpected end of file");
+
                 SubscriptionForSerializing sub(std::move(clientId), subscriptionOptions, subscription_identifier, sharename);
                 result.subscriptions[topic].push_back(std::move(sub));
             }
-- 
2.43.0


From bd2d03c10e9638d5440826418b8ac8fa656f8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:33 +0000
Subject: [PATCH 36/40] fix: load saved messages that are a bit larger than
 max_packet_size

---
 retainedmessagesdb.cpp         | 6 +++++-
 sessionsandsubscriptionsdb.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 2550006..8a11408 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -191,8 +191,12 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
     CirBuf cirbuf(1024);
 
     const Settings &settings = *ThreadGlobals::getSettings();
+    // The packets were accepted once already, and can have grown (a bit) since.
+    Settings settingsForLoading(settings);
+    settingsForLoading.maxPacketSize = std::numeric_limits<uint32_t>::max();
+
     std::shared_ptr<ThreadData> dummyThreadData;
-    std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, settings, false));
+    std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, settingsForLoading, false));
     dummyClient->setClientProperties(ProtocolVersion::Mqtt5, "Dummyforloadingretained", {}, "nobody", true, 60);
 
     bool eofFound = false;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 1cd1756..51c528b 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -136,8 +136,12 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
         std::vector<char> reserved(RESERVED_SPACE_SESSIONS_DB_V2);
         CirBuf cirbuf(1024);
 
+        // The packets were accepted once already, and can have grown (a bit) since.
+        Settings settingsForLoading(settings);
+        settingsForLoading.maxPacketSize = std::numeric_limits<uint32_t>::max();
+
         std::shared_ptr<ThreadData> dummyThreadData; // which thread am I going get/use here?
-        std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, settings, false));
+        std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, settingsForLoading, false));
         dummyClient->setClientProperties(ProtocolVersion::Mqtt5, "Dummyforloadingqueuedqos", {}, "nobody", true, 60);
 
         for (uint32_t i = 0; i < nrOfSessions; i++)
-- 
2.43.0


From 01b216d26affe8e99d8eaaac8104d1f6d7011859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:44 +0000
Subject: [PATCH 37/40] fix: tell in the CONNACK about the session as it is
 when authentication is done, not when it started

---
 client.cpp     | 19 +++++++++++++++++++
 client.h       |  1 +
 threaddata.cpp |  1 +
 3 files changed, 21 insertions(+)

diff --git a/client.cpp b/client.cpp
index 5ff7524..10c3625 100644
--- a/client.cpp
+++ b/client.cpp
@@ -776,6 +776,25 @@ void Client::stageConnack(std::unique_ptr<ConnAck> &&c)
     this->stagedConnack = std::move(c);
 }
 
+/**
+ * @brief Client::updateSessionPresentOfStagedConnack is for when sessions may have come and gone while authentication was going on.
+ */
+void Client::updateSessionPresentOfStagedConnack()
+{
+    if (!stagedConnack)
+        return;
+
+    bool sessionPresent = false;
+
+    if (protocolVersion >= ProtocolVersion::Mqtt311 && !clean_start)
+    {
+        const std::shared_ptr<Session> existingSession = globals->subscriptionStore->lockSession(clientid);
+        sessionPresent = existingSession && !existingSession->getDestroyOnDisconnect();
+    }
+
+    stagedConnack->session_present = sessionPresent;
+}
+
 void Client::sendConnackSuccess()
 {
     if (!stagedConnack)
diff --git a/client.h b/client.h
index a27230b..4799639 100644
--- a/client.h
+++ b/client.h
@@ -268,6 +268,7 @@ public:
     void clearRegistrationData();
 
     void stageConnack(std::unique_ptr<ConnAck> &&c);
+    void updateSessionPresentOfStagedConnack();
     void sendConnackSuccess();
     void sendConnackDeny(ReasonCodes reason);
     void addAuthReturnDataToStagedConnAck(const std::string &authData);
diff --git a/threaddata.cpp b/threaddata.cpp
index 6d5ec4b..efd27a2 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -219,6 +219,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
                 client->setWillFromStaged();
             }
 
+            client->updateSessionPresentOfStagedConnack();
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->sendConnackSuccess();
             client->setAuthenticated(true);
-- 
2.43.0


From e92ea766bb953689c39a4e96cfd1cc2d46520065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:44 +0000
Subject: [PATCH 38/40] fix: don't accept AUTH packets of clients that log in
 without authentication method

---
 mqttpacket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index b1ca483..de8120e 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1567,6 +1567,9 @@ void MqttPacket::handleExtendedAuth(std::shared_ptr<Client> &sender)
 {
     AuthPacketData data = parseAuthData();
 
+    if (sender->getExtendedAuthenticationMethod().empty())
+        throw ProtocolError("AUTH packets are only allowed when the CONNECT had an authentication method.", ReasonCodes::ProtocolError); // [MQTT-4.12.0-6]
+
     if (data.method != sender->getExtendedAuthenticationMethod())
         throw ProtocolError("Client continued with another authentication method that it started with.", ReasonCodes::ProtocolError);
 
-- 
2.43.0


From bd22f196cffc0dbfb0295a3f9b180e06fb86f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:17 +0000
Subject: [PATCH 39/40] fix: use the username a plugin sets in extended
 authentication for the will too

---
 threaddata.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index efd27a2..30d2932 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -214,6 +214,10 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
 
             const std::shared_ptr<WillPublish> will = client->getStagedWill();
 
+            // The will was staged before the plugin could set the username.
+            if (will)
+                will->username = client->getUsername();
+
             if (will && authentication.aclCheck(*will, will->payload, AclAccess::register_will) == AuthResult::success)
             {
                 client->setWillFromStaged();
-- 
2.43.0


From 521bd572c877df2dccd53cc4648804207d03b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:46 +0000
Subject: [PATCH 40/40] fix: let retained messages be replaced and removed when
 the limit of retained message nodes is reached

---
 subscriptionstore.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index d01e5f4..c37dacb 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1029,27 +1029,20 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
             if (!enforcement_node && cur_level >= settings->retainedMessagesNodeCreationLimitEnforcementDepth)
                 enforcement_node = *deepestNode;
 
-            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))
-                return true;
-
             auto pos = (*deepestNode)->children.find(*subtopic_pos);
 
-            if (pos == (*deepestNode)->children.end())
+            if (pos == (*deepestNode)->children.end() || !pos->second)
             {
-                needsWriteLock = true;
-                retry_point = *deepestNode;
-                break;
-            }
+                // It limits creating nodes. Setting or removing the message of a node that exists is always possible.
+                if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))
+                    return true;
 
-            std::shared_ptr<RetainedMessageNode> &selectedChildren = pos->second;
-
-            if (!selectedChildren)
-            {
                 needsWriteLock = true;
                 retry_point = *deepestNode;
                 break;
             }
-            deepestNode = &selectedChildren;
+
+            deepestNode = &pos->second;
             subtopic_pos++;
             cur_level++;
         }
@@ -1085,12 +1078,15 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
             if (!enforcement_node && cur_level >= settings->retainedMessagesNodeCreationLimitEnforcementDepth)
                 enforcement_node = *deepestNode;
 
-            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))
+            auto pos = (*deepestNode)->children.find(*subtopic_pos);
+            const bool creating = pos == (*deepestNode)->children.end() || !pos->second;
+
+            if (creating && enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))
                 return true;
 
             std::shared_ptr<RetainedMessageNode> &selectedChildren = (*deepestNode)->children[*subtopic_pos];
 
-            if (!selectedChildren)
+            if (creating)
             {
                 selectedChildren = std::make_shared<RetainedMessageNode>(*deepestNode);
             }
-- 
2.43.0

