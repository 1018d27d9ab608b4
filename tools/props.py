#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays easy to edit and consistent)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))

p("C01","Acknowledged QoS 1 and 2 messages reach every matching session",
 "Once the broker has acknowledged a QoS 1 or QoS 2 publish, every session that held a matching, permitted subscription when it was published receives the message at least once, either at once or on a later reconnect, however connections drop, are taken over, stall or reconnect in between. A message already handed over and acknowledged is not handed over again, and only session end, message expiry, the client's own maximum packet size and receive maximum, or the configured queue limits may remove one. In-flight messages are redelivered with their original packet identifier when the session is resumed.",
 ["schedules","histories","fault_sequences"],"all interleavings of worker threads and client connects, drops, takeovers, stalls and acknowledgements, at every point of the hand-off",
 "The tests publish over healthy loopback connections at one lucky interleaving; none drops, stalls or resumes connections at arbitrary points of the QoS hand-shake, or runs threads in chosen orders.",
 ["session.cpp","qospacketqueue.cpp","client.cpp","subscriptionstore.cpp","mqttpacket.cpp"],
 [("queue before write, clear on ack","session.cpp Session::writePacket/clearQosMessage"),("resend on pickup","session.cpp Session::sendAllPendingQosData")],
 ["PUBLISH packets received by each simulated client against the model's set of owed messages"],
 [("qosPacketQueue","messages not yet acknowledged","session.h QoSData")])

p("C02","QoS 2 messages are delivered exactly once on both hops",
 "A QoS 2 publish is forwarded exactly once to each matching session even when the publisher repeats the PUBLISH or PUBREL, loses its connection or resumes its session anywhere in the handshake. A subscriber that confirmed reception of a QoS 2 message is never sent that message again, also not after reconnecting, and the handshake can always be completed on the resumed session. A packet identifier can be used for a new message only after its handshake completed.",
 ["schedules","histories","fault_sequences"],"all points at which either connection breaks, all repeats of PUBLISH/PUBREC/PUBREL/PUBCOMP, all thread interleavings",
 "Tests walk through one or two hand-written handshakes; the failure points and repeats are a product space they do not enter.",
 ["session.cpp","mqttpacket.cpp","usedids.cpp","qospacketqueue.cpp"],
 [("incoming id set","session.cpp addIncomingQoS2MessageId/removeIncomingQoS2MessageId"),("outgoing id set","session.cpp addOutgoingQoS2MessageId")],
 ["count of deliveries per message per session in the recorded history; acknowledgements returned to repeated packets"],
 [("incomingQoS2MessageIds","ids received and not yet released","session.h"),("outgoingQoS2MessageIds","ids waiting for PUBCOMP","session.h")])

p("C03","Messages of one publisher on one topic arrive in the order published",
 "Messages that one connection publishes on one topic at one QoS reach each subscriber in the order in which they were published. Messages that waited for an offline session or for flow control are delivered in their original order when the session is resumed. This holds whatever the thread placement, stalls, segmentation and reconnects.",
 ["schedules","histories","fault_sequences"],"all thread schedules, publisher/subscriber placements on threads, stalls, partial writes, reconnects and queue drains",
 "Order bugs need a particular thread interleaving or a drain racing a new publish; tests use one publisher at a time and never control scheduling.",
 ["threaddata.cpp","subscriptionstore.cpp","session.cpp","qospacketqueue.cpp","client.cpp"],
 [("queue order list","qospacketqueue.cpp"),("pending data before new","session.cpp sendAllPendingQosData")],
 ["sequence numbers carried in payloads, per publisher, topic, QoS and subscriber"])

p("C04","Publishes go to exactly the sessions with a matching subscription",
 "Every publish is delivered to all sessions holding a subscription whose filter matches its topic by the MQTT wildcard rules (topics starting with $ not matching leading wildcards, no-local honoured) and to no one else; a subscription takes effect no later than its SUBACK and stops no later than its UNSUBACK. Background clean-up of the subscription tree never drops or resurrects a subscription. Repeating a subscribe replaces the previous one instead of adding another.",
 ["schedules","histories","inputs"],"all interleavings of subscribe, unsubscribe, publish, disconnect and tree maintenance on all topic/filter shapes",
 "Tests check a handful of fixed filters serially; concurrent subscription changes, tree purges at arbitrary times and randomised filter sets are not reached.",
 ["subscriptionstore.cpp","subscriptionstore.h","subscription.cpp","utils.cpp","threaddata.cpp"],
 [("tree walk","subscriptionstore.cpp publishRecursively"),("purge","subscriptionstore.cpp SubscriptionNode::cleanSubscriptions")],
 ["received PUBLISH set per client against an independent matcher"],
 [("subscription tree","who gets what","subscriptionstore.h")])

p("C05","A delivered message carries exactly what was published",
 "Topic, payload and forwarded MQTT 5 properties (content type, response topic, correlation data, payload format, user properties in order) of a delivered message equal those published, for every mix of protocol versions, QoS levels, topic aliases, transports and offline queuing. Its QoS is the lower of publish and subscription QoS, its retain flag follows retain-as-published for live messages and is set for retained ones, and it carries the identifier of the subscription it is delivered for. An outgoing or incoming topic alias always resolves to the topic it stands for.",
 ["inputs","histories","schedules"],"all combinations of sender and receiver protocol versions and limits, alias reuse histories, queued and live delivery",
 "The per-packet caches and alias tables only go wrong for particular mixes of receivers in one fan-out or reuse histories; tests use few fixed pairs.",
 ["publishcopyfactory.cpp","mqttpacket.cpp","mqtt5properties.cpp","client.cpp","session.cpp"],
 [("copy factory cache","publishcopyfactory.cpp getOptimumPacket"),("alias tables","client.cpp")],
 ["every field of each received PUBLISH decoded by an independent codec"])

p("C06","New subscribers get the last retained message of each matching topic",
 "A new subscription receives, for every matching topic, exactly the retained message set by the last retained publish to that topic that completed before, subject to retain handling and permissions, and nothing for topics whose retained message was cleared by an empty payload, expired or never existed. Several retained publishes to one topic always leave the last one, whatever deferral, contention or background clean-up happens. Fan-out that is spread over several event-loop rounds neither skips nor repeats retained messages.",
 ["schedules","histories","inputs"],"all interleavings of retained publishes, clears, subscriptions, deferred setting, deferred giving and expiry passes",
 "Deferral needs lock contention or a time budget running out mid-walk, which tests on an idle machine do not meet.",
 ["subscriptionstore.cpp","retainedmessage.cpp","threaddata.cpp","retainedmessagesdb.cpp"],
 [("deferred setting","threaddata.cpp queueSettingRetainedMessage/setQueuedRetainedMessages"),("deferred giving","subscriptionstore.cpp giveClientRetainedMessages")],
 ["retained-flagged PUBLISH packets after SUBACK against the model's map topic -> last value"],
 [("retained tree","last value per topic","subscriptionstore.h RetainedMessageNode")])

p("C07","One live connection per client id; session present and expiry are truthful",
 "At most one connection per client identifier stays open: a new successful connection with the same identifier closes the older one and continues or replaces its session as its clean start flag asks. Session present is set exactly when stored session state was resumed, and a resumed session keeps its subscriptions and undelivered messages while a clean one has none. A disconnected session is kept at least until its expiry interval, counted from the last disconnect, and stops existing within a bounded time after it.",
 ["schedules","histories"],"all interleavings of connect, disconnect, takeover, drop and expiry over all clean-start/expiry combinations and clock advances",
 "Takeover races between threads, and expiry over several disconnect/reconnect cycles, need control of scheduling and time that the tests do not have.",
 ["subscriptionstore.cpp","session.cpp","threaddata.cpp","client.cpp","mqttpacket.cpp"],
 [("takeover","subscriptionstore.cpp registerClientAndKickExistingOne"),("expiry queue","subscriptionstore.cpp queueSessionRemoval/removeExpiredSessionsClients")],
 ["CONNACK flags, connection closes, what is delivered after reconnect, over simulated time"],
 [("sessionsById","live sessions","subscriptionstore.h")])

p("C08","A will is published exactly once when due and never otherwise",
 "If a connection ends without a normal DISCONNECT, its will is published exactly once, with its registered content, after the smaller of will delay and session expiry has passed, and within a bounded time of that. It is never published after a normal DISCONNECT, nor when the session is resumed before the delay passed, and the will of one connection is never mistaken for that of another that uses the same identifier. This also holds when the connection ends by keep-alive expiry, takeover, protocol error or server shutdown, and a delayed will survives a restart.",
 ["schedules","histories","fault_sequences"],"all ways a connection can end, at all times relative to the will delay, session expiry, reconnects, takeovers and shutdown",
 "Tests try single will scenarios on one schedule; the interplay of several connections, delays and takeovers under one identifier is not covered.",
 ["subscriptionstore.cpp","session.cpp","client.cpp","threaddata.cpp","sessionsandsubscriptionsdb.cpp"],
 [("pending wills","subscriptionstore.cpp queueWillMessage/sendQueuedWillMessages"),("clear on clean disconnect","client.cpp/mqttpacket.cpp DISCONNECT handling")],
 ["will messages seen by a watcher, with simulated times"],
 [("pendingWillMessages","wills waiting for their delay","subscriptionstore.h")])

p("C09","Expired messages are never delivered; others keep their remaining lifetime",
 "A message with an expiry interval is not delivered, from a session queue, retained store or flow-control backlog, once that interval has passed since it was published, and is delivered while it has not. A delivered message shows an expiry interval equal to the original minus the time it waited. This holds across reconnects and restarts.",
 ["histories","schedules"],"all waiting times around the interval, in every store, with reconnects, restarts and clock behaviour",
 "Tests sleep for a second or two in one path; boundaries, restarts and combinations with flow control would take hours of real time.",
 ["qospacketqueue.cpp","session.cpp","retainedmessage.cpp","types.cpp","sessionsandsubscriptionsdb.cpp","retainedmessagesdb.cpp"],
 [("queue expiry","session.cpp clearExpiredMessagesFromQueue"),("retained expiry","retainedmessage.cpp hasExpired")],
 ["arrival times and expiry property of received PUBLISH packets against simulated time"])

p("C10","Receive maximum, packet ids, packet size and alias limits are respected",
 "The broker never has more unacknowledged QoS 1 and 2 messages outstanding on a connection than the client's receive maximum, never uses a packet identifier that is in use, never sends a packet larger than the client's maximum packet size and never uses a topic alias above the client's maximum. None of these limits can wedge a session: quota and identifiers become available again after every completed, refused, expired or dropped message, so delivery goes on. Messages beyond the client's receive maximum or the configured queue limits may be dropped, but only while that limit is really reached.",
 ["schedules","histories","inputs"],"all limit values, acknowledgement orders, error acknowledgements, expiries, reconnects and interleavings",
 "Leaks of quota or identifiers show only after long mixed histories; tests stop after a few messages.",
 ["session.cpp","usedids.cpp","qospacketqueue.cpp","client.cpp"],
 [("quota","session.cpp increaseFlowControlQuota"),("id allocation","session.cpp getNextPacketId")],
 ["per-connection count of outstanding ids, ids in use, packet sizes and aliases on the wire"],
 [("flowControlQuota","free receive slots","session.h QoSData"),("usedIds","ids in flight","session.h QoSData")])

p("C11","Silent clients are closed after 1.5x keep-alive and live ones never are",
 "A connection from which no packet arrives for one and a half times its keep-alive interval is closed within a bounded time after that, and its will is due. A connection that sends something within its keep-alive interval, or that has keep-alive zero, is never closed for inactivity, whatever traffic flows towards it. Connections that never complete a valid CONNECT are closed within a bounded time too.",
 ["schedules","histories"],"all keep-alive values, traffic patterns, stalls and clock advances",
 "Needs minutes to hours of clock time per case; the tests shorten timers and try one value.",
 ["threaddata.cpp","client.cpp","mainapp.cpp"],
 [("keep-alive queue","threaddata.cpp doKeepAliveCheck"),("deadline","client.cpp keepAliveExpired")],
 ["connection close times on the simulated clock"])

p("C12","State saved at shutdown or by interval is restored completely after restart",
 "After a normal stop and start, all sessions that outlive their connection come back with their subscriptions and options, queued messages with ids, order and content, QoS 2 handshake states, delayed wills and remaining expiry, and all retained messages come back with content and remaining lifetime. Time spent down counts against expiry intervals and will delays. Repeating the cycle any number of times loses and invents nothing.",
 ["histories","inputs"],"all reachable broker states at the moment of stopping, and all down times",
 "Tests save and load one hand-made state; arbitrary histories before the save and after the load, with the network side resumed, are not covered.",
 ["persistencefile.cpp","sessionsandsubscriptionsdb.cpp","retainedmessagesdb.cpp","persistencefunctions.cpp","mainapp.cpp"],
 [("save at exit","mainapp.cpp MainApp::start tail"),("load at start","mainapp.cpp constructor")],
 ["behaviour of reconnecting clients in the second incarnation against the model carried over"])

p("C13","A crash or disk fault at any point leaves a complete earlier state to start from",
 "Whatever the instant of a process or machine crash, and whatever write, flush, sync, rename or space error the disk returns, the broker starts again and finds for each state file either the complete newest or a complete earlier saved state, never a mix, truncation or garbage that passes for good. A failed save never damages the state saved before it, never takes the broker down, and the first save after the fault is gone succeeds. A damaged file is recognised and moved aside instead of being loaded.",
 ["crash_points","fault_sequences","schedules"],"every system call of a save as crash point, every error or short/torn/lost write at each, for data and directory operations",
 "Tests never inject an I/O error or crash; the window is a few system calls in a background thread.",
 ["persistencefile.cpp","sessionsandsubscriptionsdb.cpp","retainedmessagesdb.cpp","bridgeinfodb.cpp","persistencefunctions.cpp","backgroundworker.cpp"],
 [("temp file + hash + fsync + rename","persistencefile.cpp closeFile"),("hash check on load","persistencefile.cpp verifyHash")],
 ["files on the simulated disk and the state the next incarnation serves, against the snapshots that were completely saved"])

p("C14","Credentials and access rules are enforced on every path, also after live changes",
 "A connection is accepted only when anonymous access, the password file or the auth plugin allows it, and nothing a client sends before acceptance takes effect. A message is published, delivered live, delivered from a queue, delivered as retained or sent as will only when the access rules in force for the respective client allow it. A changed password or access file takes effect within a bounded time on all threads without restart, and a broken one does not open access.",
 ["schedules","histories","inputs","configurations"],"all interleavings of file changes, logins, publishes and deliveries, over random rule sets",
 "Tests check static rule sets; reload timing, per-thread copies and queued or retained paths under changing rules are not sampled.",
 ["plugin.cpp","acltree.cpp","threaddata.cpp","session.cpp","mqttpacket.cpp","subscriptionstore.cpp"],
 [("acl check on read/write","plugin.cpp aclCheck"),("reload timer","mainapp.cpp/threaddata.cpp")],
 ["CONNACK codes and deliveries against an independent evaluator of the rules"])

p("C15","Plugin decisions gate everything, also when they arrive later",
 "When a plugin answers an authentication asynchronously, no packet of that client takes effect before success, the ones it sent meanwhile are then processed in order, and on denial none is. The plugin's login, ACL and extended-authentication verdicts decide acceptance, publishing and delivery, its changes to publishes and subscriptions are what takes effect, and messages it publishes itself reach subscribers. Late answers for clients that went away, took over or never existed do no harm.",
 ["schedules","histories"],"all delays of asynchronous answers relative to packets, disconnects, takeovers, timeouts and shutdown, on any thread",
 "Tests use one fixed delay with a live client; answers racing disconnects or takeovers are not covered.",
 ["plugin.cpp","flashmq_plugin.cpp","threaddata.cpp","mqttpacket.cpp","client.cpp","pluginloader.cpp"],
 [("async queue","client.cpp handleAfterAsyncQueue"),("continuation","threaddata.cpp continuationOfAuthentication")],
 ["CONNACK/AUTH outcomes and effects of the packets in order, with a simulated plugin whose decisions are known"])

p("C16","Hostile or broken connections never crash the broker or disturb others",
 "Whatever bytes a connection sends, truncates or leaves unread, at any stage and over any transport, the broker neither crashes nor stops serving, and only that connection may be closed. Other clients' sessions, messages and connections are unaffected, and a packet that violates the protocol has no effect. Memory and connection slots taken by it are released after it is closed.",
 ["inputs","schedules","fault_sequences"],"arbitrary mutations of valid traffic in any connection state, combined with resets, stalls and concurrent healthy clients",
 "The repository's fuzzing feeds single packets to one parser; state-dependent sequences next to other live clients are not exercised.",
 ["mqttpacket.cpp","client.cpp","iowrapper.cpp","http.cpp","haproxy.cpp","threadloop.cpp","mqtt5properties.cpp","cirbuf.cpp"],
 [("per-client exception handling","threadloop.cpp do_thread_work"),("packet checks","mqttpacket.cpp")],
 ["broker liveness, healthy clients' complete oracle, closing of the hostile connection"])

p("C17","Behaviour does not depend on how bytes are split, delayed or framed",
 "The same packets produce the same effects whether they arrive byte by byte, coalesced, in WebSocket frames of any size with interleaved control frames, behind a PROXY header, or interrupted by spurious wake-ups. What the broker sends is always a well-formed sequence of whole packets (in well-formed WebSocket frames), also when writes are short, blocked or interrupted and buffers grow and wrap. Nothing is lost, duplicated or reordered by buffering.",
 ["inputs","schedules","fault_sequences"],"all segmentations, frame layouts, short reads/writes, EINTR/EAGAIN patterns and buffer sizes",
 "Loopback sockets hardly ever give partial reads or writes; the tests cannot choose segment boundaries on either side.",
 ["client.cpp","cirbuf.cpp","iowrapper.cpp","http.cpp","haproxy.cpp","threadloop.cpp"],
 [("read loop","client.cpp readFdIntoBuffer/bufferToMqttPackets"),("write loop","client.cpp writeBufIntoFd"),("websocket framing","iowrapper.cpp")],
 ["byte streams decoded strictly by an independent codec; effects against the model"])

p("C18","A shared subscription hands each message to exactly one group member",
 "Each publish matching a shared subscription is delivered to exactly one member of every matching group that exists at that time, preferring members that can take it over ones whose session is gone, and separately to each non-shared subscription. Members joining, leaving, disconnecting or expiring never cause a message to be duplicated within the group, nor lost while a connected member exists. The configured targeting (round robin, sender hash, first) decides which member it is.",
 ["schedules","histories","configurations"],"all orders of joins, leaves, drops, expiries, purges and publishes from several threads, under each targeting mode",
 "Tests use a fixed group and serial publishes; membership changes and clean-up racing publishes are not covered.",
 ["sharedsubscribers.cpp","subscriptionstore.cpp","subscription.cpp"],
 [("member choice","sharedsubscribers.cpp getNext"),("re-index","sharedsubscribers.cpp purgeAndReIndex")],
 ["deliveries per message summed over group members"])

p("C19","Bridges forward exactly the configured traffic and recover by themselves",
 "A bridge forwards messages matching its publish lines to the remote broker and messages matching its subscribe lines from it, with the configured prefixes and at most the configured QoS, once each and without looping back. After the link or the remote broker fails in any way it reconnects by itself within a bounded time once the remote is reachable again, re-establishing its subscriptions. With persistent bridge sessions, QoS 1 and 2 messages published during the outage are delivered after it.",
 ["fault_sequences","schedules","histories","configurations"],"all link faults (refused, reset, silent, slow, partial handshake), remote restarts and timings, over prefix/QoS/protocol configurations",
 "The tests bridge two healthy brokers on loopback; outages at arbitrary moments and name resolution failures are not simulated.",
 ["threaddata.cpp","bridgeconfig.cpp","client.cpp","session.cpp","subscriptionstore.cpp","dnsresolver.cpp"],
 [("reconnect","threaddata.cpp bridgeReconnect"),("prefix rewriting","mqttpacket.cpp/session.cpp")],
 ["messages seen on both simulated brokers; time to reconnect"])

p("C20","Shutdown is bounded, orderly and saves everything",
 "On a termination signal at any moment the broker stops within a bounded time, sending due wills of connected clients, telling MQTT 5 clients that it shuts down, and saving all state, no matter what clients, background saves, deferred work, blocked connections or bridges are doing. State acknowledged before the signal is in the saved state. A second signal or one during start-up does no harm.",
 ["schedules","histories","fault_sequences"],"the signal at any scheduling point of any workload, with stalled clients and running background work",
 "The tests stop an idle broker; signals racing saves, deferred tasks, connects and stuck writers are not tried.",
 ["mainapp.cpp","threaddata.cpp","threadloop.cpp","backgroundworker.cpp","persistencefunctions.cpp","fmqmain.cpp"],
 [("shutdown sequence","mainapp.cpp MainApp::start tail"),("thread drain","threaddata.cpp quit handling")],
 ["exit within the bound, wills and DISCONNECT packets seen, state restored by the next incarnation"])

p("C21","A slow or stuck receiver never blocks, delays or corrupts others",
 "A client that reads slowly or not at all costs at most its own messages: everybody else's traffic keeps flowing, and buffered data for it stays within the configured bound. QoS 0 messages may be dropped for it only when its buffer is full, QoS 1 and 2 messages stay queued within the configured limits, and what it eventually reads is an uncorrupted sequence of whole packets. When it resumes reading, delivery to it resumes.",
 ["schedules","fault_sequences","histories"],"all patterns of zero windows, slow drains and resumptions, buffer sizes and fan-outs",
 "Tests always read promptly; filling buffers and stalled sockets are not arranged.",
 ["client.cpp","cirbuf.cpp","threadloop.cpp","session.cpp"],
 [("buffer limit","client.cpp writeMqttPacket"),("EPOLLOUT handling","client.cpp setReadyForWriting")],
 ["bytes buffered by the broker for the stalled connection; other clients' full oracle; the stream after resumption"])

p("C22","Every valid request gets exactly one right answer, also while others misbehave",
 "Each CONNECT, SUBSCRIBE, UNSUBSCRIBE, QoS 1 and 2 PUBLISH, PUBREL and PINGREQ of a served connection is answered exactly once, with the matching identifier and a reason that agrees with what was done, within a bounded time of the simulated clock when no fault is active. Answers to one connection come in the order of the requests. Unsolicited answers are never sent.",
 ["schedules","histories","inputs"],"all request mixes and pipelining on all threads, including during deferrals, reloads and maintenance",
 "Tests await single answers one at a time; pipelined mixes under adversarial scheduling and the bounded-time claim are out of reach.",
 ["mqttpacket.cpp","acksender.cpp","client.cpp","threadloop.cpp","threaddata.cpp"],
 [("packet dispatch","mqttpacket.cpp handle"),("ack senders","acksender.cpp")],
 ["request/response matching over each connection's history"])

p("C23","Reloading configuration applies valid changes and never disturbs service",
 "On a reload signal a valid changed configuration takes effect for listeners, limits and access settings within a bounded time on all threads, and an invalid or unreadable one leaves the running configuration fully in force. Existing connections, sessions, retained messages and in-flight handshakes survive either way, and removed listeners stop accepting while kept ones never do. Repeated or concurrent reloads at any time do no harm.",
 ["schedules","histories","configurations","fault_sequences"],"all moments of reload relative to traffic and other reloads, over sequences of valid and invalid configurations and failing binds",
 "No test reloads a running broker under traffic.",
 ["mainapp.cpp","configfileparser.cpp","settings.cpp","threaddata.cpp","listener.cpp"],
 [("reload","mainapp.cpp reloadConfig/loadConfig"),("settings propagation","threaddata.cpp queueReload")],
 ["which ports accept, which limits apply and what existing clients observe"])

p("C24","Counters and published statistics agree with what really exists",
 "Once activity pauses, the broker's published statistics on connected clients, sessions, subscriptions and retained messages equal the real numbers, however those came and went. The totals of received and sent messages only grow and match the traffic. When all clients are gone and sessions expired, everything held for them is released.",
 ["schedules","histories","fault_sequences"],"all histories of connects, failures, takeovers, subscription and retained changes, expiries and clean-up passes",
 "Drift of a counter needs long mixed histories with failure paths; tests do not compare statistics with a model.",
 ["mainapp.cpp","threaddata.cpp","subscriptionstore.cpp","client.cpp","derivablecounter.cpp","globalstats.cpp"],
 [("counting","subscriptionstore.cpp subscriptionCount/retainedMessageCount, threaddata.cpp"),("publishing","mainapp.cpp publishStats")],
 ["$SYS topics after quiescence against the model; open simulated sockets"])

p("C25","The broker survives transient system failures and serves again afterwards",
 "Transient failures of the operating system (no free descriptors, interrupted or failing accept, epoll, socket, eventfd, DNS or clock anomalies such as jumps and long stalls of one thread) never crash the broker or end its service. Connections not touched by the fault keep working with all their guarantees. Within a bounded time after the last fault, new connections and all traffic are served normally.",
 ["fault_sequences","schedules"],"all sequences of such failures at any call, at any time of a mixed workload",
 "Tests never make a system call fail.",
 ["mainapp.cpp","threadloop.cpp","threaddata.cpp","listener.cpp","client.cpp","dnsresolver.cpp","scopedsocket.cpp"],
 [("accept loop error handling","mainapp.cpp"),("event loop error handling","threadloop.cpp")],
 ["liveness probes after the last fault and the full oracle for untouched clients"])

p("N01","Topic filter and UTF-8 validation accept exactly the valid strings",
 "Every string is classified as valid or invalid topic, topic filter or UTF-8 text exactly as MQTT requires.",
 ["inputs"],"all byte strings",
 "Tests check a list of examples.",["utils.cpp"],[("validators","utils.cpp")],["connection closed or accepted"])
p("N02","Password hashes verify exactly the right password",
 "A stored salted hash accepts its own password and no other.",["inputs"],"all passwords, salts and iteration counts","Tests have a few vectors.",
 ["plugin.cpp","utils.cpp"],[("hash compare","plugin.cpp loginCheckFromMosquittoPasswordFile")],["login verdict"])
p("N03","Every documented configuration option parses to the documented meaning",
 "Each option in the manual is accepted with its documented values and rejected otherwise.",["configurations","inputs"],"all configuration texts","Tests parse a few files.",
 ["configfileparser.cpp","man/flashmq.conf.5"],[("parser","configfileparser.cpp")],["start-up verdict"])
p("N04","State files of every earlier format version load correctly",
 "Files written by earlier releases are read with their recorded meaning.",["inputs"],"all files of all earlier versions","One sample per version at most.",
 ["sessionsandsubscriptionsdb.cpp","retainedmessagesdb.cpp"],[("version switch","*db.cpp openRead")],["state after start"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
