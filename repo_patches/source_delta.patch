From a4463420226567022f43ad199908990226586473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 01/31] fix: don't frame the rest of a partially written
 websocket upgrade answer

---
 iowrapper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index c2e7cfa..8ebbd49 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -1070,10 +1070,13 @@ ssize_t IoWrapper::writeWebsocketAndOrSsl(int fd, const void *buf, size_t nbytes
 {
     if (websocketState != WebsocketState::Upgraded)
     {
-        if (connectionProtocol == ConnectionProtocol::WebsocketMqtt && websocketState == WebsocketState::Upgrading)
+        const ssize_t n = writeOrSslWrite(fd, buf, nbytes, error);
+
+        // The HTTP answer is the only thing in the buffer until it is gone; a partially written answer must not be continued as frame.
+        if (connectionProtocol == ConnectionProtocol::WebsocketMqtt && websocketState == WebsocketState::Upgrading && n > 0 && static_cast<size_t>(n) == nbytes)
             websocketState = WebsocketState::Upgraded;
 
-        return writeOrSslWrite(fd, buf, nbytes, error);
+        return n;
     }
     else
     {
-- 
2.43.0


From bde40bd56df4da77a50217f156ae3a6f282a9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 02/31] fix: don't lose, reorder or send publishes before
 CONNACK while a client connects

---
 client.h       |   4 ++
 mqttpacket.cpp |   4 +-
 session.cpp    | 130 +++++++++++++++++++++++++++----------------------
 session.h      |   3 +-
 threaddata.cpp |   5 +-
 5 files changed, 84 insertions(+), 62 deletions(-)

diff --git a/client.h b/client.h
index a27230b..2093ff4 100644
--- a/client.h
+++ b/client.h
@@ -13,6 +13,7 @@ See LICENSE for license details.
 
 #include <fcntl.h>
 #include <unistd.h>
+#include <atomic>
 #include <vector>
 #include <mutex>
 #include <iostream>
@@ -117,6 +118,7 @@ class Client
     MutexOwned<WriteBuf> writebuf;
 
     bool authenticated = false;
+    std::atomic<bool> sessionPacketsHeld {false};
     bool connectPacketSeen = false;
     bool readyForReading = true;
     DisconnectStage disconnectStage = DisconnectStage::NotInitiated;
@@ -217,6 +219,8 @@ public:
     void clearWill();
     void setAuthenticated(bool value) { authenticated = value;}
     bool getAuthenticated() { return authenticated; }
+    void setSessionPacketsHeld(bool val) { sessionPacketsHeld = val; }
+    bool getSessionPacketsHeld() const { return sessionPacketsHeld; }
     bool hasConnectPacketSeen() { return connectPacketSeen; }
     void setHasConnectPacketSeen() { connectPacketSeen = true; }
     const std::string &getClientId() { return this->clientid; }
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..d19c090 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1471,6 +1471,8 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
         }
     }
 
+    session->sendAllPendingQosData(sender);
+
     // It doesn't matter if we do this every time on connack; a client can only be subscribed once per pattern.
     // Note that this will also send all locally retained messages. I think that's the best approach: the state of retained
     // messages need to be synced; they may have been removed remotely while disconnected, for instance.
@@ -1488,8 +1490,6 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
     }
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
-
-    session->sendAllPendingQosData();
 }
 
 AuthPacketData MqttPacket::parseAuthData()
diff --git a/session.cpp b/session.cpp
index 29310b8..808a370 100644
--- a/session.cpp
+++ b/session.cpp
@@ -45,6 +45,15 @@ void Session::QoSData::resetFlowControlCounters(const uint16_t receive_max)
     this->flowControlQuota = receive_max;
 }
 
+/**
+ * @brief Session::QoSData::restartFlowControl gives the full quota, for when nothing was sent to the client yet. Packets that were queued
+ * since the client was assigned are about to be counted again.
+ */
+void Session::QoSData::restartFlowControl()
+{
+    this->flowControlQuota = this->flowControlCealing;
+}
+
 bool Session::QoSData::flowControlExhausted() const
 {
     return this->flowControlQuota <= 0;
@@ -228,8 +237,6 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         return PacketDropReason::AuthDenied;
     }
 
-    const std::shared_ptr<Client> c = makeSharedClient();
-
     std::optional<std::string> topic_override;
 
     {
@@ -247,6 +254,20 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         }
     }
 
+    std::shared_ptr<Client> c;
+
+    /*
+     * Clients get assigned to the session before they can receive anything. As long as that's the case, the packet is only queued, and it's up
+     * to sendAllPendingQosData() to send it.
+     */
+    auto setReadyClient = [this, &c]
+    {
+        c = makeSharedClient();
+
+        if (c && c->getSessionPacketsHeld())
+            c.reset();
+    };
+
     std::optional<uint16_t> pack_id;
 
     if (__builtin_expect(effectiveQos > 0, 0))
@@ -254,6 +275,9 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         const Settings *settings = ThreadGlobals::getSettings();
         MutexLocked<QoSData> qos_locked = qos.lock();
 
+        // Needs to be under the lock, to be sure that either we or sendAllPendingQosData() gives the packet to the client.
+        setReadyClient();
+
         // We don't clear expired messages for online clients. It would slow down the 'happy flow' and those packets are already in the output
         // buffer, so we can't clear them anyway.
         if (!c)
@@ -290,9 +314,13 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
             return PacketDropReason::QoSTODOSomethingSomething;
         }
 
-        if (!destroyOnDisconnect)
+        if (!destroyOnDisconnect || !c)
             qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override);
     }
+    else
+    {
+        setReadyClient();
+    }
 
     if (!c)
         return PacketDropReason::ClientOffline;
@@ -311,19 +339,15 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
  */
 bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
 {
-    bool result = false;
-
     MutexLocked<QoSData> qos_locked = qos.lock();
 
     if (logger->wouldLog(LOG_PUBLISH))
         logger->logf(LOG_PUBLISH, "Clearing QoS message for '%s', packet id '%d'. Left in queue: %d", client_id.c_str(), packet_id, qos_locked->getQueuedCount());
 
-    if (!destroyOnDisconnect)
-        result = qos_locked->eraseQueuedPublish(packet_id);
-    else
-    {
+    bool result = qos_locked->eraseQueuedPublish(packet_id);
+
+    if (destroyOnDisconnect)
         result = true;
-    }
 
     if (qosHandshakeEnds && result)
     {
@@ -347,68 +371,58 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
  * never know that, because IT will have received the PUBACK from FlashMQ. The QoS system is not between publisher
  * and subscriber. Users are required to implement something themselves.
  */
-void Session::sendAllPendingQosData()
+void Session::sendAllPendingQosData(const std::shared_ptr<Client> &c)
 {
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::shared_ptr<Client> c = makeSharedClient();
-    if (c)
-    {
-        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t>> copiedPublishes;
-        std::vector<uint16_t> copiedQoS2Ids;
-
-        {
-            MutexLocked<QoSData> qos_locked = qos.lock();
-
-            std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
-            while (qp_)
-            {
-                std::shared_ptr<QueuedPublish> qp = qp_;
-                qp_ = qp_->next.lock();
-
-                Publish &pub = qp->getPublish();
-
-                if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
-                {
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
+    // We keep this while writing, to avoid new publishes overtaking the ones we send, or being missed by us.
+    MutexLocked<QoSData> qos_locked = qos.lock();
 
-                if (qos_locked->flowControlExhausted())
-                {
-                    logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
+    // It may have been replaced already, in which case it's the newer client that must get everything.
+    if (!c || makeSharedClient() != c)
+        return;
 
-                qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+    qos_locked->restartFlowControl();
 
-                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId());
-            }
+    std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
+    while (qp_)
+    {
+        std::shared_ptr<QueuedPublish> qp = qp_;
+        qp_ = qp_->next.lock();
 
-            for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
-            {
-                copiedQoS2Ids.push_back(packet_id);
-            }
-        }
+        Publish &pub = qp->getPublish();
 
-        for(std::tuple<Publish, std::optional<std::string>, uint16_t> &p : copiedPublishes)
+        if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
         {
-            Publish &pub = std::get<Publish>(p);
-            PublishCopyFactory fac(&pub);
-            const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+            qos_locked->eraseQueuedPublish(qp->getPacketId());
+            qos_locked->releasePacketId(qp->getPacketId());
+            continue;
         }
 
-        for(uint16_t id : copiedQoS2Ids)
+        if (qos_locked->flowControlExhausted())
         {
-            PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, id);
-            MqttPacket packet(pubRel);
-            c->writeMqttPacketAndBlameThisClient(packet);
+            logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
+            qos_locked->eraseQueuedPublish(qp->getPacketId());
+            qos_locked->releasePacketId(qp->getPacketId());
+            continue;
         }
+
+        qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+
+        Publish copiedPublish(pub);
+        PublishCopyFactory fac(&copiedPublish);
+        const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
+        c->writeMqttPacketAndBlameThisClient(fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride());
     }
+
+    for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
+    {
+        PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, packet_id);
+        MqttPacket packet(pubRel);
+        c->writeMqttPacketAndBlameThisClient(packet);
+    }
+
+    c->setSessionPacketsHeld(false);
 }
 
 bool Session::hasActiveClient()
diff --git a/session.h b/session.h
index 6dbcbac..690e7d0 100644
--- a/session.h
+++ b/session.h
@@ -76,6 +76,7 @@ class Session
         void decreaseFlowControlQuotaAgain(const uint16_t packet_id);
         void increaseFlowControlQuota(const uint16_t packet_id);
         void resetFlowControlCounters(const uint16_t receive_max);
+        void restartFlowControl();
         bool flowControlExhausted() const;
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
@@ -127,7 +128,7 @@ public:
                                 uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start);
     PacketDropReason writePacket(PublishCopyFactory &copyFactory, const uint8_t max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier);
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
-    void sendAllPendingQosData();
+    void sendAllPendingQosData(const std::shared_ptr<Client> &c);
     bool hasActiveClient();
     void clearWill();
     std::shared_ptr<WillPublish> getWill();
diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..266222a 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -219,10 +219,12 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
                 client->setWillFromStaged();
             }
 
+            // Publishes for this client can come from any thread from the moment it's registered, but the CONNACK has to come first.
+            client->setSessionPacketsHeld(true);
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->sendConnackSuccess();
             client->setAuthenticated(true);
-            client->getSession()->sendAllPendingQosData();
+            client->getSession()->sendAllPendingQosData(client);
             client->handleAfterAsyncQueue(client);
         }
         else // Reauth (to authenticated clients) sends AUTH on success.
@@ -347,6 +349,7 @@ void ThreadData::bridgeReconnect()
                 ConnectionProtocol::Mqtt, HaProxyMode::Off, addr.getSockaddr(), settingsLocalCopy);
             c->addToEpoll(EPOLLIN | EPOLLOUT);
             c->setBridgeState(bridge);
+            c->setSessionPacketsHeld(true); // Until we've had a CONNACK.
             if (bridge->c.maxBufferSize)
                 c->setMaxBufSizeOverride(bridge->c.maxBufferSize.value());
 
-- 
2.43.0


From 22d721523f1356d7703e81fa9af8d0fbda6841ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 03/31] fix: handle the subscriptions of one SUBSCRIBE packet
 in order

---
 mqttpacket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d19c090..92c23b5 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1778,7 +1778,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
 
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::forward_list<SubscriptionTuple> deferredSubscribes;
+    std::list<SubscriptionTuple> deferredSubscribes;
 
     std::list<ReasonCodes> subs_reponse_codes;
     while (remainingAfterPos() > 0)
@@ -1869,7 +1869,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         if (authResult == AuthResult::success || authResult == AuthResult::success_without_retained_delivery || authResult == AuthResult::success_but_drop)
         {
             const uint32_t subscr_id = settings->subscriptionIdentifierEnabled ? subscription_identifier : 0;
-            deferredSubscribes.emplace_front(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
+            deferredSubscribes.emplace_back(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
             subs_reponse_codes.push_back(static_cast<ReasonCodes>(qos));
         }
         else
-- 
2.43.0


From a76a4e05d346034daf01c30e7fb98b366b03621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 04/31] fix: keep the subscription identifier of queued
 retained and will messages

---
 publishcopyfactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/publishcopyfactory.cpp b/publishcopyfactory.cpp
index 80d96fe..d17a7ac 100644
--- a/publishcopyfactory.cpp
+++ b/publishcopyfactory.cpp
@@ -162,6 +162,7 @@ Publish PublishCopyFactory::getNewPublish(uint8_t new_max_qos, bool retainAsPubl
     Publish p(*publish);
     p.qos = actualQos;
     p.retain = getEffectiveRetain(retainAsPublished);
+    p.subscriptionIdentifier = subscriptionIdentifier;
     return p;
 }
 
-- 
2.43.0


From 8c9c4daadb65208600f896d7082020489e04c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 05/31] fix: don't end the HTTP header of a websocket upgrade
 before its last byte

---
 http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http.cpp b/http.cpp
index bbf5141..7842dc7 100644
--- a/http.cpp
+++ b/http.cpp
@@ -101,6 +101,10 @@ std::optional<HttpRequest> parseHttpHeader(CirBuf &buf)
         std::istringstream is(s);
         for (std::string line; std::getline(is, line);)
         {
+            // The last line, when not terminated yet. In case of just a '\r', it would look like the empty line otherwise.
+            if (is.eof())
+                break;
+
             trim(line);
 
             if (line.empty())
-- 
2.43.0


From 3db3a3e7f8746686a8c4714e3134201c95bf4c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:22 +0000
Subject: [PATCH 06/31] fix: publish a QoS 2 message once when it's resent
 while the old connection is still being handled

---
 mqttpacket.cpp |  7 ++-----
 session.cpp    | 19 ++++++++-----------
 session.h      |  3 +--
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 92c23b5..1acfe2b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2265,16 +2265,13 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
             ackSender.sendNow(sender.get());
         }
     }
-    else if (publishData.qos == 2 && sender->getSession()->incomingQoS2MessageIdInTransit(_packet_id))
+    // Doing this before the authentication on purpose, so when the publish is not allowed, the QoS control packets are allowed and can finish.
+    else if (publishData.qos == 2 && !sender->getSession()->addIncomingQoS2MessageId(_packet_id))
     {
         ackSender.setAckCode(ReasonCodes::Success);
     }
     else
     {
-        // Doing this before the authentication on purpose, so when the publish is not allowed, the QoS control packets are allowed and can finish.
-        if (publishData.qos == 2)
-            sender->getSession()->addIncomingQoS2MessageId(_packet_id);
-
         const uint8_t qos_org = this->publishData.qos;
         const bool retain_org = this->publishData.retain;
         const bool altered = authentication.alterPublish(
diff --git a/session.cpp b/session.cpp
index 808a370..44f557b 100644
--- a/session.cpp
+++ b/session.cpp
@@ -450,21 +450,18 @@ void Session::setClientType(ClientType val)
     this->clientType = val;
 }
 
-void Session::addIncomingQoS2MessageId(uint16_t packet_id)
-{
-    assert(packet_id > 0);
-
-    MutexLocked<QoSData> qos_locked = qos.lock();
-    qos_locked->incomingQoS2MessageIds.insert(packet_id);
-}
-
-bool Session::incomingQoS2MessageIdInTransit(uint16_t packet_id)
+/**
+ * @brief Session::addIncomingQoS2MessageId
+ * @return false when the packet ID was already in transit, so when it's a duplicate.
+ *
+ * Checking and adding needs to be one action, because a client resending on a new connection can be handled in a different thread.
+ */
+bool Session::addIncomingQoS2MessageId(uint16_t packet_id)
 {
     assert(packet_id > 0);
 
     MutexLocked<QoSData> qos_locked = qos.lock();
-    const auto it = qos_locked->incomingQoS2MessageIds.find(packet_id);
-    return it != qos_locked->incomingQoS2MessageIds.end();
+    return qos_locked->incomingQoS2MessageIds.insert(packet_id).second;
 }
 
 bool Session::removeIncomingQoS2MessageId(u_int16_t packet_id)
diff --git a/session.h b/session.h
index 690e7d0..863b066 100644
--- a/session.h
+++ b/session.h
@@ -136,8 +136,7 @@ public:
     ClientType getClientType() const { return clientType; }
     void setClientType(ClientType val);
 
-    void addIncomingQoS2MessageId(uint16_t packet_id);
-    bool incomingQoS2MessageIdInTransit(uint16_t packet_id);
+    bool addIncomingQoS2MessageId(uint16_t packet_id);
     bool removeIncomingQoS2MessageId(u_int16_t packet_id);
     void addOutgoingQoS2MessageId(uint16_t packet_id);
     void removeOutgoingQoS2MessageId(u_int16_t packet_id);
-- 
2.43.0


From 890ebd1122ea9ed6a015547f44f98c8520b8a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 07/31] fix: free the packet ID of a denied QoS 2 publish

---
 mqttpacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 1acfe2b..88a080d 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2324,6 +2324,10 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         }
         else
         {
+            // A PUBREC with an error ends the exchange, so the ID is free again. Older protocols don't have reason codes, so continue with PUBREL.
+            if (qos_org == 2 && this->protocolVersion >= ProtocolVersion::Mqtt5)
+                sender->getSession()->removeIncomingQoS2MessageId(_packet_id);
+
             ackSender.setAckCode(ReasonCodes::NotAuthorized);
         }
     }
-- 
2.43.0


From 9ec1d83eeb8ee8bf564a621b77e38c366b0a1617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:28 +0000
Subject: [PATCH 08/31] fix: don't stop reading when data exactly fills the
 read buffer

---
 client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index 840fda6..da16caf 100644
--- a/client.cpp
+++ b/client.cpp
@@ -334,7 +334,7 @@ DisconnectStage Client::readFdIntoBuffer()
 
         if (error == IoWrapResult::Interrupted)
             continue;
-        if (error == IoWrapResult::Wouldblock || error == IoWrapResult::Disconnected)
+        if (error == IoWrapResult::Disconnected || (error == IoWrapResult::Wouldblock && readbuf.freeSpace() > 0))
             break;
 
         // Make sure we either always have enough space for a next call of this method, or stop reading the fd.
-- 
2.43.0


From 296d76c67ed338d789714df4ca3b3e3da9c5c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 09/31] fix: don't accept a QoS 2 publish from a client that
 has been replaced

---
 acksender.cpp  |  5 +++++
 acksender.h    |  1 +
 mqttpacket.cpp |  7 ++++++-
 session.cpp    | 24 +++++++++++++++++++++++-
 session.h      |  2 ++
 5 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/acksender.cpp b/acksender.cpp
index ca27df1..57f0a8d 100644
--- a/acksender.cpp
+++ b/acksender.cpp
@@ -42,6 +42,11 @@ void AckSender::sendNow(Client *client)
     client->writeMqttPacket(response);
 }
 
+void AckSender::cancel()
+{
+    this->sent = true;
+}
+
 void AckSender::setAckCode(ReasonCodes ackCode)
 {
     this->ackCode = ackCode;
diff --git a/acksender.h b/acksender.h
index 2917dc3..a3856b7 100644
--- a/acksender.h
+++ b/acksender.h
@@ -33,6 +33,7 @@ public:
     ~AckSender();
     void sendNow(Client *client);
     void setAckCode(ReasonCodes ackCode);
+    void cancel();
 };
 
 #endif // ACKSENDER_H
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 88a080d..15cbfd3 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2266,7 +2266,12 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         }
     }
     // Doing this before the authentication on purpose, so when the publish is not allowed, the QoS control packets are allowed and can finish.
-    else if (publishData.qos == 2 && !sender->getSession()->addIncomingQoS2MessageId(_packet_id))
+    else if (const std::optional<bool> isNew = publishData.qos == 2 ? sender->getSession()->addIncomingQoS2MessageId(_packet_id, sender) : true; !isNew)
+    {
+        ackSender.cancel();
+        return;
+    }
+    else if (!isNew.value())
     {
         ackSender.setAckCode(ReasonCodes::Success);
     }
diff --git a/session.cpp b/session.cpp
index 44f557b..9956c81 100644
--- a/session.cpp
+++ b/session.cpp
@@ -201,7 +201,12 @@ void Session::assignActiveConnection(const std::shared_ptr<Session> &thisSession
     if (username != client->getUsername())
         throw ProtocolError("Cannot take over session with different username", ReasonCodes::NotAuthorized);
 
-    thisSession->assignActiveConnection(client);
+    {
+        // See addIncomingQoS2MessageId().
+        MutexLocked<QoSData> qos_locked = qos.lock();
+        thisSession->assignActiveConnection(client);
+    }
+
     client->assignSession(thisSession);
     thisSession->setSessionProperties(clientReceiveMax, sessionExpiryInterval, clean_start, client->getProtocolVersion());
 }
@@ -464,6 +469,23 @@ bool Session::addIncomingQoS2MessageId(uint16_t packet_id)
     return qos_locked->incomingQoS2MessageIds.insert(packet_id).second;
 }
 
+/**
+ * @brief Session::addIncomingQoS2MessageId is the variant for when the ID comes from a client.
+ * @return The same as the other one, or nothing when the client has been replaced by another one (see assignActiveConnection()). It can then no
+ *         longer do anything with the session, because the new client may already have resent and completed the same message.
+ */
+std::optional<bool> Session::addIncomingQoS2MessageId(uint16_t packet_id, const std::shared_ptr<Client> &sender)
+{
+    assert(packet_id > 0);
+
+    MutexLocked<QoSData> qos_locked = qos.lock();
+
+    if (makeSharedClient() != sender)
+        return {};
+
+    return qos_locked->incomingQoS2MessageIds.insert(packet_id).second;
+}
+
 bool Session::removeIncomingQoS2MessageId(u_int16_t packet_id)
 {
     assert(packet_id > 0);
diff --git a/session.h b/session.h
index 863b066..266a8fe 100644
--- a/session.h
+++ b/session.h
@@ -16,6 +16,7 @@ See LICENSE for license details.
 #include <mutex>
 #include <shared_mutex>
 #include <set>
+#include <optional>
 
 #include "forward_declarations.h"
 #include "logger.h"
@@ -136,6 +137,7 @@ public:
     ClientType getClientType() const { return clientType; }
     void setClientType(ClientType val);
 
+    std::optional<bool> addIncomingQoS2MessageId(uint16_t packet_id, const std::shared_ptr<Client> &sender);
     bool addIncomingQoS2MessageId(uint16_t packet_id);
     bool removeIncomingQoS2MessageId(u_int16_t packet_id);
     void addOutgoingQoS2MessageId(uint16_t packet_id);
-- 
2.43.0


From 2a678345ba3c034bf9f00f66697bad7997e84140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:27 +0000
Subject: [PATCH 10/31] fix: tell subscriptions of an old and a new session
 with the same client ID apart

---
 subscriptionstore.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..87ceb02 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -80,14 +80,14 @@ AddSubscriptionType SubscriptionNode::addSubscriber(
     if (shareName.empty())
     {
         Subscription &s = subscribers[client_id];
-        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;
+        result = s.session.lock() == subscriber ? AddSubscriptionType::ExistingSubscription : AddSubscriptionType::NewSubscription;
         s = sub;
     }
     else
     {
         SharedSubscribers &subscribers = sharedSubscribers.try_emplace(shareName, shareName, subscriber->getFmqClientGroupId()).first->second;
         Subscription &s = subscribers[client_id];
-        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;
+        result = s.session.lock() == subscriber ? AddSubscriptionType::ExistingSubscription : AddSubscriptionType::NewSubscription;
         s = sub;
     }
 
@@ -110,7 +110,8 @@ void SubscriptionNode::removeSubscriber(const std::shared_ptr<Session> &subscrib
     {
         auto it = subscribers.find(clientId);
 
-        if (it != subscribers.end())
+        // It can be one of a new session with the same client ID, when we are called for the old one.
+        if (it != subscribers.end() && it->second.session.lock() == subscriber)
         {
             subscribers.erase(it);
         }
-- 
2.43.0


From 07a844e382b5395d54fdb082874cd3f85c09990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:30 +0000
Subject: [PATCH 11/31] fix: don't remove a session because of an earlier,
 outdated expiry

---
 session.cpp           | 3 ++-
 session.h             | 4 +++-
 subscriptionstore.cpp | 6 +++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/session.cpp b/session.cpp
index 9956c81..466c9a6 100644
--- a/session.cpp
+++ b/session.cpp
@@ -591,8 +591,9 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     this->sessionExpiryInterval = newVal;
 }
 
-void Session::setQueuedRemovalAt()
+void Session::setQueuedRemovalAt(std::chrono::seconds removeAt)
 {
+    this->removeAt = removeAt;
     this->removalQueuedAt = std::chrono::steady_clock::now();
     this->removalQueued = true;
 }
diff --git a/session.h b/session.h
index 266a8fe..2c34700 100644
--- a/session.h
+++ b/session.h
@@ -111,6 +111,7 @@ class Session
     bool removalQueued = false;
     ClientType clientType = ClientType::Normal;
     std::chrono::time_point<std::chrono::steady_clock> removalQueuedAt;
+    std::chrono::seconds removeAt{0};
     Logger *logger = Logger::getInstance();
 
     Session(const Session &other) = delete;
@@ -150,7 +151,8 @@ public:
 
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
-    void setQueuedRemovalAt();
+    void setQueuedRemovalAt(std::chrono::seconds removeAt);
+    std::chrono::seconds getRemoveAt() const { return removeAt; }
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
 
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 87ceb02..4797fe9 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1298,8 +1298,8 @@ void SubscriptionStore::removeExpiredSessionsClients()
             {
                 std::shared_ptr<Session> lockedSession = ses.lock();
 
-                // A session could have been picked up again, so we have to verify its expiration status.
-                if (lockedSession && !lockedSession->hasActiveClient())
+                // A session could have been picked up again (and perhaps been queued again for a later time), so we have to verify its expiration status.
+                if (lockedSession && !lockedSession->hasActiveClient() && lockedSession->getRemoveAt() <= secondsSinceEpoch)
                 {
                     sessionsToRemove.push_back(lockedSession);
                 }
@@ -1443,9 +1443,9 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
 
     std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
     std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
-    session->setQueuedRemovalAt();
 
     std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);
+    session->setQueuedRemovalAt(secondsSinceEpoch);
     queuedSessionRemovals[secondsSinceEpoch].push_back(session);
 }
 
-- 
2.43.0


From 601333077f1ccc8cf6a0346ca899f48b03aed8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:38 +0000
Subject: [PATCH 12/31] fix: have clients that connect at the same time with
 the same ID see each other

---
 subscriptionstore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 4797fe9..b5e28ac 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -367,9 +367,10 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
             sessionsById[client->getClientId()] = session;
         }
-    }
 
-    session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
+        // Still locked, so that of clients connecting at the same time, each one sees the one before it.
+        session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
+    }
 }
 
 /**
-- 
2.43.0


From 5d4d64b83cdc87fcbeae0b79fdc4404121d5b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:50 +0000
Subject: [PATCH 13/31] fix: don't remove an expired session that is being
 picked up again

---
 subscriptionstore.cpp | 6 +++---
 subscriptionstore.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index b5e28ac..c03ec3d 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1224,7 +1224,7 @@ bool SubscriptionNode::empty() const
     return children.empty() && subscribers.empty() && sharedSubscribers.empty() && !childrenPlus && !childrenPound;
 }
 
-void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session)
+void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session, bool onlyWhenInactive)
 {
     if (!session)
         return;
@@ -1239,7 +1239,7 @@ void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session)
         std::unique_lock session_locker(sessions_lock);
 
         auto session_it = sessionsById.find(clientid);
-        if (session_it != sessionsById.end() && session_it->second == session)
+        if (session_it != sessionsById.end() && session_it->second == session && !(onlyWhenInactive && session->hasActiveClient()))
         {
             sessionsToRemove.push_back(session_it->second);
             sessionsById.erase(session_it);
@@ -1315,7 +1315,7 @@ void SubscriptionStore::removeExpiredSessionsClients()
 
     for(std::shared_ptr<Session> &session : sessionsToRemove)
     {
-        removeSession(session);
+        removeSession(session, true);
         removedSessions++;
     }
 
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 9ea3fcb..6c60644 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -233,7 +233,7 @@ public:
     void trySetRetainedMessages(const Publish &publish, const std::vector<std::string> &subtopics);
     bool setRetainedMessage(const Publish &publish, const std::vector<std::string> &subtopics, bool try_lock_fail=false);
 
-    void removeSession(const std::shared_ptr<Session> &session);
+    void removeSession(const std::shared_ptr<Session> &session, bool onlyWhenInactive=false);
     void removeExpiredSessionsClients();
     bool hasDeferredSubscriptionTreeNodesForPurging();
     bool purgeSubscriptionTree();
-- 
2.43.0


From a31da222968ad81f65a82945e8c5000fcebc1fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 14/31] fix: don't remove a session because of a previous
 client when it's in use by a new one

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 266222a..c51df65 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -442,7 +442,7 @@ void ThreadData::clientDisconnectActions(
 
     if (session && session->getDestroyOnDisconnect())
     {
-        store->removeSession(session);
+        store->removeSession(session, true);
     }
     else
     {
-- 
2.43.0


From f5e76bcfec728484b9bd5ed495cbb5206dd2d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 15/31] fix: don't clear the will of a client that took over
 the session

---
 client.cpp            | 6 +++---
 lockedsharedptr.h     | 7 +++++++
 session.cpp           | 7 +++++--
 session.h             | 2 +-
 subscriptionstore.cpp | 2 +-
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/client.cpp b/client.cpp
index da16caf..6799f56 100644
--- a/client.cpp
+++ b/client.cpp
@@ -1217,11 +1217,11 @@ const std::optional<std::string> &Client::getRemotePrefix() const
 
 void Client::clearWill()
 {
+    if (session)
+        session->clearWill(willPublish);
+
     willPublish.reset();
     stagedWillPublish.reset();
-
-    if (session)
-        session->clearWill();
 }
 
 std::string Client::getClientIdOrPrefix() const
diff --git a/lockedsharedptr.h b/lockedsharedptr.h
index b38ddd5..25ee6b9 100644
--- a/lockedsharedptr.h
+++ b/lockedsharedptr.h
@@ -25,6 +25,13 @@ public:
         p.reset();
     }
 
+    void resetIf(const std::shared_ptr<T> &r)
+    {
+        std::lock_guard<std::mutex> l(m);
+        if (p == r)
+            p.reset();
+    }
+
     std::shared_ptr<T> getCopy()
     {
         std::lock_guard<std::mutex> l(m);
diff --git a/session.cpp b/session.cpp
index 466c9a6..ca3db5d 100644
--- a/session.cpp
+++ b/session.cpp
@@ -435,9 +435,12 @@ bool Session::hasActiveClient()
     return !client.expired();
 }
 
-void Session::clearWill()
+/**
+ * @brief Session::clearWill clears the given will, and not the one of a client that took over the session in the mean time.
+ */
+void Session::clearWill(const std::shared_ptr<WillPublish> &will)
 {
-    this->willPublish.reset();
+    this->willPublish.resetIf(will);
 }
 
 std::shared_ptr<WillPublish> Session::getWill()
diff --git a/session.h b/session.h
index 2c34700..aa3e484 100644
--- a/session.h
+++ b/session.h
@@ -132,7 +132,7 @@ public:
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
     void sendAllPendingQosData(const std::shared_ptr<Client> &c);
     bool hasActiveClient();
-    void clearWill();
+    void clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index c03ec3d..501e415 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -401,7 +401,7 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      * Session is null when you're destroying a client before a session is assigned, or
      * when an old client has no session anymore after a client with the same ID connects.
      */
-    session->clearWill();
+    session->clearWill(will);
 
     const Settings *settings = ThreadGlobals::getSettings();
 
-- 
2.43.0


From 5cb037501280cf7e5b3dbd5a208b122ee85d6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:08 +0000
Subject: [PATCH 16/31] fix: send a delayed will when its session is ended by a
 clean start, and send each will only once

---
 subscriptionstore.cpp | 10 ++++++++++
 threaddata.cpp        |  3 ++-
 types.h               |  3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 501e415..c128d5d 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -328,6 +328,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
+    std::shared_ptr<Session> endedSession;
 
     if (client->getClientId().empty())
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
@@ -362,6 +363,8 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
         if (!session || session->getDestroyOnDisconnect() || clean_start)
         {
+            endedSession = session;
+
             // Don't use sdt::make_shared to avoid the weak pointers from retaining the size of session in the control block.
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
@@ -371,6 +374,10 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
         // Still locked, so that of clients connecting at the same time, each one sees the one before it.
         session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
     }
+
+    // The end of the session means no longer waiting for the will delay. When it still has a client, this is done by the disconnect actions.
+    if (endedSession && !endedSession->hasActiveClient())
+        queueOrSendWillMessage(endedSession->getWill(), endedSession, true);
 }
 
 /**
@@ -403,6 +410,9 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      */
     session->clearWill(will);
 
+    if (!will->claimSending())
+        return;
+
     const Settings *settings = ThreadGlobals::getSettings();
 
     if (!settings->willsEnabled)
diff --git a/threaddata.cpp b/threaddata.cpp
index c51df65..7b40469 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -437,7 +437,8 @@ void ThreadData::clientDisconnectActions(
 
     if (willPublish)
     {
-        store->queueOrSendWillMessage(willPublish, session);
+        const bool sessionEnded = session && store->lockSession(clientid) != session;
+        store->queueOrSendWillMessage(willPublish, session, sessionEnded);
     }
 
     if (session && session->getDestroyOnDisconnect())
diff --git a/types.h b/types.h
index 1044692..39d5b4b 100644
--- a/types.h
+++ b/types.h
@@ -12,6 +12,7 @@ See LICENSE for license details.
 #define TYPES_H
 
 #include <stdint.h>
+#include <atomic>
 #include <list>
 #include <string>
 #include <memory>
@@ -287,12 +288,14 @@ class WillPublish : public Publish
 {
     bool isQueued = false;
     std::chrono::time_point<std::chrono::steady_clock> queuedAt;
+    std::shared_ptr<std::atomic_flag> sendingClaimed = std::make_shared<std::atomic_flag>();
 public:
     uint32_t will_delay = 0;
     WillPublish() = default;
     WillPublish(const Publish &other);
     void setQueuedAt();
     uint32_t getQueuedAtAge() const;
+    bool claimSending() { return !sendingClaimed->test_and_set(); }
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 };
 
-- 
2.43.0


From 55fad59e95f7711f6980afb572cc07a202c55e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:54 +0000
Subject: [PATCH 17/31] fix: don't destroy a thread's task queue while other
 threads can still use it

---
 threaddata.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 7b40469..52eb0ed 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -872,7 +872,16 @@ void ThreadData::acceptPendingBridges()
 
 void ThreadData::clear()
 {
-    pub.emplace();
+    // Other threads may still be using our public data (by destroying one of our clients, for instance), so only empty it.
+    std::list<std::function<void()>> tasks;
+    pub->taskQueue.lock()->swap(tasks);
+    tasks.clear();
+    pub->delayedTasks.clear();
+    pub->externalFds.clear();
+    pub->disconnectingClients.clear();
+    pub->acceptQueue.takeClients();
+    pub->acceptQueue.takeBridges();
+
     priv.emplace();
 }
 
-- 
2.43.0


From ecbbc3f6d93d12ed20d6162cb113b8db6393499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:30 +0000
Subject: [PATCH 18/31] fix: free the packet ID of a message that's bigger than
 the client's maximum packet size

---
 session.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/session.cpp b/session.cpp
index ca3db5d..7060e9e 100644
--- a/session.cpp
+++ b/session.cpp
@@ -333,7 +333,23 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     if (!c->isRetainedAvailable())
         effectiveRetain = false;
 
-    return c->writeMqttPacketAndBlameThisClient(copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+    const PacketDropReason result = c->writeMqttPacketAndBlameThisClient(
+        copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+
+    // The client will never acknowledge it, so then we have to behave as if it did [MQTT-3.1.2-25].
+    if (pack_id && result == PacketDropReason::BiggerThanPacketLimit)
+    {
+        MutexLocked<QoSData> qos_locked = qos.lock();
+
+        // When there's a new client, it's up to sendAllPendingQosData().
+        if (makeSharedClient() == c)
+        {
+            qos_locked->eraseQueuedPublish(*pack_id);
+            qos_locked->increaseFlowControlQuota(*pack_id);
+        }
+    }
+
+    return result;
 }
 
 /**
@@ -417,7 +433,14 @@ void Session::sendAllPendingQosData(const std::shared_ptr<Client> &c)
         Publish copiedPublish(pub);
         PublishCopyFactory fac(&copiedPublish);
         const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-        c->writeMqttPacketAndBlameThisClient(fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride());
+        const PacketDropReason result = c->writeMqttPacketAndBlameThisClient(
+            fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride());
+
+        if (result == PacketDropReason::BiggerThanPacketLimit)
+        {
+            qos_locked->eraseQueuedPublish(qp->getPacketId());
+            qos_locked->increaseFlowControlQuota(qp->getPacketId());
+        }
     }
 
     for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
-- 
2.43.0


From c7639d9315b83a767c4e7988c69c64c524538c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:29 +0000
Subject: [PATCH 19/31] fix: let the read buffer grow until a packet of the
 maximum size fits

---
 client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client.cpp b/client.cpp
index 6799f56..3223f46 100644
--- a/client.cpp
+++ b/client.cpp
@@ -343,10 +343,12 @@ DisconnectStage Client::readFdIntoBuffer()
             const Settings *settings = ThreadGlobals::getSettings();
             // I guess I should have just made a 'max buffer size' option, and not distinguish between read/write?
             const uint32_t maxBufSize = this->maxReadBufSizeOverride.value_or(settings->clientMaxWriteBufferSize);
-            const uint32_t maxBufOrBigPacketSize= std::max<uint32_t>(this->maxIncomingPacketSize, maxBufSize);
+
+            // A packet of the maximum size must be able to fit, or it can never be completed.
+            const bool roomForBigPacket = readbuf.getCapacity() > this->maxIncomingPacketSize;
 
             // We always grow for another iteration when there are still decoded websocket/SSL bytes, because epoll doesn't tell us that buffer has data.
-            if (readbuf.getCapacity() * 2 <= maxBufOrBigPacketSize || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
+            if (readbuf.getCapacity() * 2 <= maxBufSize || !roomForBigPacket || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
             {
                 readbuf.doubleCapacity();
             }
-- 
2.43.0


From 7a48f435a7210dbfd0d86456c1d9032a37b4b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:05 +0000
Subject: [PATCH 20/31] fix: keep checking connections that send something but
 never complete a CONNECT

---
 threaddata.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 52eb0ed..790358e 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -1262,7 +1262,7 @@ void ThreadData::doKeepAliveCheck()
         // Put clients to delete in here, to avoid holding two locks.
         std::vector<std::shared_ptr<Client>> clientsToRemove;
 
-        std::vector<std::shared_ptr<Client>> clientsToRecheck;
+        std::vector<KeepAliveCheck> clientsToRecheck;
 
         int slotsTotal = 0;
         int slotsProcessed = 0;
@@ -1301,9 +1301,9 @@ void ThreadData::doKeepAliveCheck()
                         {
                             clientsToRemove.push_back(client);
                         }
-                        else if (k.recheck)
+                        else if (k.recheck || !client->getAuthenticated())
                         {
-                            clientsToRecheck.push_back(client);
+                            clientsToRecheck.push_back(k);
                         }
                     }
                 }
@@ -1311,10 +1311,16 @@ void ThreadData::doKeepAliveCheck()
                 pos = priv->queuedKeepAliveChecks.erase(pos);
             }
 
-            for (std::shared_ptr<Client> &c : clientsToRecheck)
+            for (const KeepAliveCheck &k : clientsToRecheck)
             {
-                c->resetBuffersIfEligible();
-                queueClientNextKeepAliveCheck(c, true);
+                std::shared_ptr<Client> c = k.client.lock();
+
+                if (!c)
+                    continue;
+
+                if (k.recheck)
+                    c->resetBuffersIfEligible();
+                queueClientNextKeepAliveCheck(c, k.recheck);
             }
         }
 
-- 
2.43.0


From 3b2f793495a2153459d9f7677731b3bc95acf1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 21/31] fix: don't expire a client's keep-alive while there's
 unread data of it

---
 client.cpp     | 11 +++++++++++
 client.h       |  1 +
 threaddata.cpp |  3 ++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index 3223f46..92d0f0d 100644
--- a/client.cpp
+++ b/client.cpp
@@ -16,6 +16,7 @@ See LICENSE for license details.
 #include <cassert>
 #include <chrono>
 #include <netinet/tcp.h>
+#include <poll.h>
 
 #include "logger.h"
 #include "utils.h"
@@ -664,6 +665,16 @@ bool Client::keepAliveExpired()
     return result;
 }
 
+bool Client::hasUnreadData() const
+{
+    struct pollfd p;
+    p.fd = fd.get();
+    p.events = POLLIN;
+    p.revents = 0;
+
+    return poll(&p, 1, 0) > 0 && (p.revents & POLLIN);
+}
+
 std::string Client::getKeepAliveInfoString() const
 {
     std::chrono::seconds secondsSinceLastActivity = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - lastActivity);
diff --git a/client.h b/client.h
index 2093ff4..15e2608 100644
--- a/client.h
+++ b/client.h
@@ -256,6 +256,7 @@ public:
     std::string repr();
     std::string repr_endpoint();
     bool keepAliveExpired();
+    bool hasUnreadData() const;
     std::string getKeepAliveInfoString() const;
     void resetBuffersIfEligible();
 
diff --git a/threaddata.cpp b/threaddata.cpp
index 790358e..654c63d 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -1297,7 +1297,8 @@ void ThreadData::doKeepAliveCheck()
                             client->writePing();
                         }
 
-                        if (client->keepAliveExpired())
+                        // A thread that didn't get to run for a while can still have to read what the client sent.
+                        if (client->keepAliveExpired() && !client->hasUnreadData())
                         {
                             clientsToRemove.push_back(client);
                         }
-- 
2.43.0


From a475cdd8cea4c03e8204d070e0eadf1e0babca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 22/31] fix: load queued messages with a subscription
 identifier from the sessions DB

---
 mqttpacket.cpp                 | 12 +++++++++++-
 mqttpacket.h                   |  2 +-
 sessionsandsubscriptionsdb.cpp |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 15cbfd3..d393d3b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2027,7 +2027,7 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
     sender->writeMqttPacket(response);
 }
 
-void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
+void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromPersistence)
 {
     assert(externallyReceived);
 
@@ -2153,6 +2153,16 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
 
                 dontReuseBites = true;
 
+                if (fromPersistence)
+                {
+                    // It's our own queued publish for a subscriber, so we need to keep it.
+                    publishData.subscriptionIdentifier = decodeVariableByteIntAtPos();
+#ifdef TESTING
+                    publishData.subscriptionIdentifierTesting = publishData.subscriptionIdentifier;
+#endif
+                    break;
+                }
+
 #ifndef TESTING
                 if (sender->getClientType() != ClientType::LocalBridge)
                     throw ProtocolError("Subscription identifiers cannot be sent to servers.", ReasonCodes::ProtocolError);
diff --git a/mqttpacket.h b/mqttpacket.h
index a868296..848c1c4 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -151,7 +151,7 @@ public:
     void handleSubAck(std::shared_ptr<Client> &sender);
     void handleUnsubscribe(std::shared_ptr<Client> &sender);
     void handlePing(std::shared_ptr<Client> &sender);
-    void parsePublishData(std::shared_ptr<Client> &sender);
+    void parsePublishData(std::shared_ptr<Client> &sender, bool fromPersistence = false);
     void handlePublish(std::shared_ptr<Client> &sender);
     void parsePubAckData();
     void handlePubAck(std::shared_ptr<Client> &sender);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..0e85980 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -182,7 +182,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     cirbuf.advanceHead(packlen);
                     MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-                    pack.parsePublishData(dummyClient);
+                    pack.parsePublishData(dummyClient, true);
                     Publish pub(pack.getPublishData());
 
                     pub.client_id = sender_clientid;
-- 
2.43.0


From 0826f057818f97442fb5fb62c6ce4d8063838730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:19 +0000
Subject: [PATCH 23/31] fix: don't subtract the age of saved messages twice
 from their expiry interval

---
 retainedmessagesdb.cpp         |  7 ++++++-
 sessionsandsubscriptionsdb.cpp | 10 +++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..3e3a79b 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -132,6 +132,12 @@ void RetainedMessagesDB::saveData(const std::vector<RetainedMessage> &messages)
         this->written_count++;
 
         Publish pcopy(rm.publish);
+        const uint32_t pubAge = pcopy.expireInfo ? ageFromTimePoint(pcopy.expireInfo.value().createdAt) : 0;
+
+        // The age is saved separately, so the packet must have the full interval.
+        if (pcopy.expireInfo)
+            pcopy.expireInfo->createdAt = std::chrono::steady_clock::now();
+
         MqttPacket pack(ProtocolVersion::Mqtt5, pcopy);
 
         // Dummy, to please the parser on reading.
@@ -139,7 +145,6 @@ void RetainedMessagesDB::saveData(const std::vector<RetainedMessage> &messages)
             pack.setPacketId(666);
 
         const uint32_t packSize = pack.getSizeIncludingNonPresentHeader();
-        const uint32_t pubAge = pcopy.expireInfo ? ageFromTimePoint(pcopy.expireInfo.value().createdAt) : 0;
 
         cirbuf.reset();
         cirbuf.ensureFreeSpace(packSize + 32);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0e85980..b976f70 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -353,7 +353,7 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
             {
                 qosPacketsCounted++;
 
-                Publish &pub = qp->getPublish();
+                Publish pub(qp->getPublish());
 
                 assert(!pub.skipTopic);
                 assert(pub.topicAlias == 0);
@@ -361,6 +361,12 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
                 if (logger->wouldLog(LOG_DEBUG))
                     logger->logf(LOG_DEBUG, "Saving QoS %d message for topic '%s'.", pub.qos, pub.topic.c_str());
 
+                const uint32_t pubAge = pub.expireInfo ? ageFromTimePoint(pub.expireInfo.value().createdAt) : 0;
+
+                // The age is saved separately, so the packet must have the full interval.
+                if (pub.expireInfo)
+                    pub.expireInfo->createdAt = std::chrono::steady_clock::now();
+
                 MqttPacket pack(ProtocolVersion::Mqtt5, pub);
                 pack.setPacketId(qp->getPacketId());
                 const uint32_t packSize = pack.getSizeIncludingNonPresentHeader();
@@ -368,8 +374,6 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
                 cirbuf.ensureFreeSpace(packSize + 32);
                 pack.readIntoBuf(cirbuf);
 
-                const uint32_t pubAge = pub.expireInfo ? ageFromTimePoint(pub.expireInfo.value().createdAt) : 0;
-
                 writeUint16(pack.getFixedHeaderLength());
                 writeUint16(qp->getPacketId());
                 writeUint32(pubAge);
-- 
2.43.0


From e8f225a913960fba405cbafd772cbb7cc89d2c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:00 +0000
Subject: [PATCH 24/31] fix: don't save the subscriptions of a replaced session
 as those of the new one

---
 sessionsandsubscriptionsdb.h |  3 +++
 sharedsubscribers.cpp        |  1 +
 subscriptionstore.cpp        | 14 ++++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/sessionsandsubscriptionsdb.h b/sessionsandsubscriptionsdb.h
index d671418..51f4f66 100644
--- a/sessionsandsubscriptionsdb.h
+++ b/sessionsandsubscriptionsdb.h
@@ -40,6 +40,9 @@ struct SubscriptionForSerializing
     const bool retainAsPublished = false;
     const uint32_t subscriptionidentifier = 0;
 
+    // Only known when saving.
+    std::weak_ptr<Session> session;
+
     SubscriptionForSerializing(const std::string &clientId, uint8_t qos, bool noLocal, bool retainAsPublished, uint32_t subscriptionidentifier);
     SubscriptionForSerializing(const std::string &clientId, uint8_t qos, bool noLocal, bool retainAsPublished, uint32_t subscriptionidentifier, const std::string &shareName);
     SubscriptionForSerializing(const std::string &&clientId, uint8_t qos, bool noLocal, bool retainAsPublished, uint32_t subscriptionidentifier);
diff --git a/sharedsubscribers.cpp b/sharedsubscribers.cpp
index 9b2e6dc..d650a37 100644
--- a/sharedsubscribers.cpp
+++ b/sharedsubscribers.cpp
@@ -147,6 +147,7 @@ void SharedSubscribers::getForSerializing(const std::string &topic, std::unorder
         if (ses)
         {
             SubscriptionForSerializing sub(ses->getClientId(), member.qos, member.noLocal, member.retainAsPublished, member.subscriptionIdentifier, this->shareName);
+            sub.session = ses;
             outputList[topic].push_back(sub);
         }
     }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index c128d5d..e5138b8 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -23,6 +23,7 @@ See LICENSE for license details.
 #include "threaddata.h"
 #include "globals.h"
 #include <deque>
+#include <unordered_set>
 
 DeferredGetSubscription::DeferredGetSubscription(const std::shared_ptr<SubscriptionNode> &node, const std::string &composedTopic, const bool root) :
     node(node),
@@ -1536,6 +1537,7 @@ void SubscriptionStore::getSubscriptions(SubscriptionNode *this_node, const std:
         if (ses)
         {
             SubscriptionForSerializing sub(ses->getClientId(), node.qos, node.noLocal, node.retainAsPublished, node.subscriptionIdentifier);
+            sub.session = ses;
             outputList[composedTopic].push_back(sub);
         }
     }
@@ -1763,6 +1765,18 @@ void SubscriptionStore::saveSessionsAndSubscriptions(const std::string &filePath
 
     subscriptionCopies = getSubscriptions();
 
+    // A session that was replaced by one with the same client ID can still be in use by the old client. Its subscriptions don't belong to the new session.
+    {
+        const std::unordered_set<std::shared_ptr<Session>> currentSessions(sessionPointers.begin(), sessionPointers.end());
+
+        for (auto &pair : subscriptionCopies)
+        {
+            pair.second.remove_if([&](const SubscriptionForSerializing &sub) {
+                return currentSessions.find(sub.session.lock()) == currentSessions.end();
+            });
+        }
+    }
+
     const std::chrono::time_point<std::chrono::steady_clock> doneCopying = std::chrono::steady_clock::now();
 
     const std::chrono::milliseconds copyDuration = std::chrono::duration_cast<std::chrono::milliseconds>(doneCopying - start);
-- 
2.43.0


From 99a1fb3744bb08414a4b7237d425e313ae676d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:34 +0000
Subject: [PATCH 25/31] fix: don't count a taken over session's age from when
 the old client disconnected

---
 subscriptionstore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index e5138b8..893f2d9 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1453,6 +1453,10 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
     if (!session)
         return;
 
+    // When another client took over the session, it's that client that will queue it.
+    if (session->hasActiveClient())
+        return;
+
     std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
     std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
 
-- 
2.43.0


From 4867f11bcbcadf865c5382f2ab9cd7608ef19c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 26/31] fix: let the expiry interval of a will start when it's
 published

---
 sessionsandsubscriptionsdb.cpp | 7 ++++++-
 subscriptionstore.cpp          | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index b976f70..f7e8c1b 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -417,7 +417,12 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
 
             if (hasWillThatShouldSurviveRestart)
             {
-                MqttPacket willpacket(ProtocolVersion::Mqtt5, *will);
+                // Its expiry interval only starts counting when it's published.
+                Publish willPublish(*will);
+                if (willPublish.expireInfo)
+                    willPublish.expireInfo->createdAt = std::chrono::steady_clock::now();
+
+                MqttPacket willpacket(ProtocolVersion::Mqtt5, willPublish);
 
                 // Dummy, to please the parser on reading.
                 if (will->qos > 0)
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 893f2d9..281d868 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -426,14 +426,19 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
-        PublishCopyFactory factory(will.get());
+        // The expiry interval of a will starts when it's published, not when it was received in the CONNECT.
+        Publish publish(*will);
+        if (publish.expireInfo)
+            publish.expireInfo->createdAt = std::chrono::steady_clock::now();
+
+        PublishCopyFactory factory(&publish);
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
         // because a client cannot get its own will.
         queuePacketAtSubscribers(factory, will->client_id, {});
 
         if (will->retain && authResult == AuthResult::success)
-            setRetainedMessage(*will, will->getSubtopics());
+            setRetainedMessage(publish, publish.getSubtopics());
     }
 }
 
-- 
2.43.0


From 9f16df5f06091f44bd8ee7cd860b06c087644dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 27/31] fix: keep a will that became due while the server was
 down, if it stops again

---
 sessionsandsubscriptionsdb.cpp | 2 +-
 types.h                        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index f7e8c1b..d9aa003 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -412,7 +412,7 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
             writeUint32(ses->getCurrentSessionExpiryInterval());
 
             std::shared_ptr<WillPublish> will = ses->getWill();
-            const bool hasWillThatShouldSurviveRestart = will.operator bool() && will->will_delay > 0;
+            const bool hasWillThatShouldSurviveRestart = will.operator bool() && (will->will_delay > 0 || will->getIsQueued());
             writeUint16(static_cast<uint16_t>(hasWillThatShouldSurviveRestart));
 
             if (hasWillThatShouldSurviveRestart)
diff --git a/types.h b/types.h
index 39d5b4b..47e6917 100644
--- a/types.h
+++ b/types.h
@@ -295,6 +295,7 @@ public:
     WillPublish(const Publish &other);
     void setQueuedAt();
     uint32_t getQueuedAtAge() const;
+    bool getIsQueued() const { return isQueued; }
     bool claimSending() { return !sendingClaimed->test_and_set(); }
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 };
-- 
2.43.0


From a63fcdbbec3c9dd8372915be6e37e819cb1ee3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:17 +0000
Subject: [PATCH 28/31] fix: don't send the delayed will of a client whose
 session was already picked up when it ended

---
 threaddata.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 654c63d..5675c7d 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -437,7 +437,8 @@ void ThreadData::clientDisconnectActions(
 
     if (willPublish)
     {
-        const bool sessionEnded = session && store->lockSession(clientid) != session;
+        // When another client had already picked up the session before it ended, the end is of that client's will.
+        const bool sessionEnded = session && session->getWill() == willPublish && store->lockSession(clientid) != session;
         store->queueOrSendWillMessage(willPublish, session, sessionEnded);
     }
 
-- 
2.43.0


From d47a086e7adefe0bf8c5dd9a56714359a9f7e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:46 +0000
Subject: [PATCH 29/31] fix: don't keep reading state files for ever when the
 disk gives a read error

---
 persistencefile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..6fe620c 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -101,6 +101,10 @@ void PersistenceFile::hashFile()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading '%s' for hashing: %s", filePathTemp.c_str(), strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -138,6 +142,10 @@ void PersistenceFile::verifyHash()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading '%s': %s", filePath.c_str(), strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
-- 
2.43.0


From 1367fde7b067a2c86731f9ab80ac10aafce0850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:04 +0000
Subject: [PATCH 30/31] fix: don't let a failed save replace the previously
 saved state or end the server

---
 persistencefile.cpp    | 43 ++++++++++++++++++++++++++++++++++--------
 persistencefile.h      |  1 +
 retainedmessagesdb.cpp |  9 ++++++++-
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 6fe620c..4dea945 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -347,6 +347,7 @@ void PersistenceFile::openWrite(const std::string &versionString)
     }
 
     openMode = FileMode::write;
+    uncaughtExceptionsOnOpen = std::uncaught_exceptions();
 
     writeCheck(buf.data(), 1, MAGIC_STRING_LENGH, f);
     rewind(f);
@@ -431,16 +432,36 @@ void PersistenceFile::closeFile()
 
     if (openMode == FileMode::write)
     {
-        if (!discard)
-            hashFile();
+        // When saving was interrupted by an exception, the file is incomplete.
+        if (std::uncaught_exceptions() > uncaughtExceptionsOnOpen)
+            discard = true;
 
-        if (fflush(f) != 0)
+        if (!discard)
         {
-            std::string msg(strerror(errno));
-            throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            try
+            {
+                hashFile();
+
+                if (fflush(f) != 0 || ferror(f))
+                {
+                    std::string msg(strerror(errno));
+                    throw std::runtime_error(formatString("Writing '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+                }
+
+                if (fsync(f->_fileno) < 0)
+                {
+                    std::string msg(strerror(errno));
+                    throw std::runtime_error(formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+                }
+            }
+            catch (std::exception &)
+            {
+                // Don't replace the previously saved file with this one.
+                discard = true;
+                unlink(filePathTemp.c_str());
+                throw;
+            }
         }
-
-        fsync(f->_fileno);
     }
 
     if (f != nullptr)
@@ -451,6 +472,8 @@ void PersistenceFile::closeFile()
         if (fclose(f2) < 0)
         {
             std::string msg(strerror(errno));
+            if (openMode == FileMode::write)
+                unlink(filePathTemp.c_str());
             throw std::runtime_error(formatString("Close of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
         }
     }
@@ -464,7 +487,11 @@ void PersistenceFile::closeFile()
         else
         {
             if (rename(filePathTemp.c_str(), filePath.c_str()) < 0)
-                throw std::runtime_error(formatString("Saving '%s' failed: rename of temp file to target failed with: %s", filePath.c_str(), strerror(errno)));
+            {
+                std::string msg(strerror(errno));
+                unlink(filePathTemp.c_str());
+                throw std::runtime_error(formatString("Saving '%s' failed: rename of temp file to target failed with: %s", filePath.c_str(), msg.c_str()));
+            }
 
             int dir_fd = open(this->dirPath.c_str(), O_RDONLY);
             if (dir_fd > 0)
diff --git a/persistencefile.h b/persistencefile.h
index d297a71..cc365ed 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -43,6 +43,7 @@ class PersistenceFile
     std::string filePathCorrupt;
     std::string dirPath;
     bool discard = false;
+    int uncaughtExceptionsOnOpen = 0;
 
     std::unique_ptr<EVP_MD_CTX, void(*)(EVP_MD_CTX*)> digestContext;
     const EVP_MD *sha512 = EVP_sha512();
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 3e3a79b..dcd0d9c 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,14 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        closeFile();
+    }
+    catch (std::exception &ex)
+    {
+        logger->log(LOG_ERR) << "Error saving retained messages: " << ex.what();
+    }
 }
 
 void RetainedMessagesDB::openWrite()
-- 
2.43.0


From aa310b66d3b9004eaeddcd1405ea057b3d4b832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 31/31] fix: move a state file that's too small for a header
 aside, like other corrupt files

---
 persistencefile.cpp | 37 ++++++++++++++++++++++---------------
 persistencefile.h   |  1 +
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 4dea945..e48ab01 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -124,7 +124,7 @@ void PersistenceFile::verifyHash()
     const size_t size = ftell(f);
 
     if (size < TOTAL_HEADER_SIZE)
-        throw std::runtime_error(formatString("File '%s' is too small for it even to contain a header.", filePath.c_str()));
+        moveCorruptFileAside("too small for it even to contain a header");
 
     unsigned char md_from_disk[HASH_SIZE];
     std::memset(md_from_disk, 0, HASH_SIZE);
@@ -155,24 +155,31 @@ void PersistenceFile::verifyHash()
         throw std::runtime_error("Impossible: calculated hash size wrong length");
 
     if (std::memcmp(md_from_disk, md_value, output_len) != 0)
-    {
-        fclose(f);
-        f = nullptr;
-
-        if (rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)
-        {
-            throw std::runtime_error(formatString("File '%s' is corrupt: hash mismatch. Moved aside to '%s'.", filePath.c_str(), filePathCorrupt.c_str()));
-        }
-        else
-        {
-            throw std::runtime_error(formatString("File '%s' is corrupt: hash mismatch. Tried to move aside, but that failed: '%s'.",
-                                                  filePath.c_str(), strerror(errno)));
-        }
-    }
+        moveCorruptFileAside("hash mismatch");
 
     logger->logf(LOG_DEBUG, "Hash of '%s' correct", filePath.c_str());
 }
 
+/**
+ * @brief PersistenceFile::moveCorruptFileAside always throws, also when moving the file worked.
+ */
+void PersistenceFile::moveCorruptFileAside(const std::string &reason)
+{
+    fclose(f);
+    f = nullptr;
+
+    if (rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)
+    {
+        throw std::runtime_error(formatString("File '%s' is corrupt: %s. Moved aside to '%s'.",
+                                              filePath.c_str(), reason.c_str(), filePathCorrupt.c_str()));
+    }
+    else
+    {
+        throw std::runtime_error(formatString("File '%s' is corrupt: %s. Tried to move aside, but that failed: '%s'.",
+                                              filePath.c_str(), reason.c_str(), strerror(errno)));
+    }
+}
+
 /**
  * @brief PersistenceFile::makeSureBufSize grows the buffer if n is bigger.
  * @param n in bytes.
diff --git a/persistencefile.h b/persistencefile.h
index cc365ed..cfcc359 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -50,6 +50,7 @@ class PersistenceFile
 
     void hashFile();
     void verifyHash();
+    void moveCorruptFileAside(const std::string &reason);
 
 protected:
     enum class FileMode
-- 
2.43.0

