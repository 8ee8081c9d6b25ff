From fd5dffb60bb899b1b17921cf2445b3f57193291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 01/40] fix: SmallBuffer::swap pointed the other buffer at this
 object's inline storage

---
 src/helics/core/SmallBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 6e958a1..6a407d8 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -361,7 +361,7 @@ class SmallBuffer {
             nonOwning = sb2.nonOwning;
             sb2.usingAllocatedBuffer = false;
             sb2.nonOwning = false;
-            sb2.heap = buffer.data();
+            sb2.heap = sb2.buffer.data();
             sb2.bufferCapacity = 64;
 
             std::memcpy(sb2.heap, buffer.data(), bufferSize);
-- 
2.43.0


From 35c5dd2ff1055d575d1cd382dd8c9b4443cfeff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 02/40] fix: convert the sequence number of a message from a
 machine with another byte order

---
 src/helics/core/ActionMessage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 1cdf83d..5573ad8 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -554,6 +554,7 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
         swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&dest_handle));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&counter));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&flags));
+        swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&sequenceID));
         auto timecode = actionTime.getBaseTimeCode();
         swap_bytes<sizeof(Time::baseType)>(reinterpret_cast<std::uint8_t*>(&timecode));
         actionTime.setBaseTimeCode(timecode);
-- 
2.43.0


From 655af6950203d4ede2cf647669622c7f28f2facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 03/40] fix: check the room for the extra times before
 serializing a time request

---
 src/helics/core/ActionMessage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 5573ad8..2c21387 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -185,15 +185,19 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
 
     // put the main string size in the first 4 bytes;
     std::uint32_t ssize{0UL};
+    std::size_t requiredSize{action_message_base_size};
     if (messageAction != CMD_TIME_REQUEST) {
         if (payload.size() >= maxPayloadSize) {
             ssize = maxPayloadSize;
         } else {
             ssize = static_cast<uint32_t>(payload.size());
         }
+        requiredSize += ssize;
+    } else {
+        requiredSize += 3 * sizeof(Time::baseType);
     }
 
-    if ((data == nullptr) || (buffer_size == 0) || buffer_size < action_message_base_size + ssize) {
+    if ((data == nullptr) || buffer_size < requiredSize) {
         return -1;
     }
 
-- 
2.43.0


From b100722f27f39cd2bddb0c543b31d4193601922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 04/40] fix: clear the payload when a message without payload
 is loaded into a used object

---
 src/helics/core/ActionMessage.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 2c21387..a83a279 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -517,10 +517,8 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
         Tdemin = timeZero;
         Tso = timeZero;
     }
-    if (size > 0) {
-        payload.assign(data, size);
-        data += size;
-    }
+    payload.assign(data, size);
+    data += size;
     auto stringCount = std::to_integer<std::size_t>(*data);
     ++data;
     if (stringCount != 0) {
-- 
2.43.0


From 1244fbab7e92f0c620c76a8f33865d7908b163ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 05/40] fix: reset the request times when a json message
 without them is loaded

---
 src/helics/core/ActionMessage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index a83a279..bb76bf3 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -643,6 +643,10 @@ bool ActionMessage::from_json_string(std::string_view data)
             Te.setBaseTimeCode(val["Te"].get<int64_t>());
             Tdemin.setBaseTimeCode(val["Tdemin"].get<int64_t>());
             Tso.setBaseTimeCode(val["Tso"].get<int64_t>());
+        } else {
+            Te = timeZero;
+            Tdemin = timeZero;
+            Tso = timeZero;
         }
         payload = val["payload"].get<std::string>();
         auto stringCount = val["stringCount"].get<int>();
-- 
2.43.0


From b3beb9b23c7b9e70442f2347f75354e79ec23551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 06/40] fix: write the tail entry that is counted for a payload
 of exactly the maximum block size

---
 src/helics/core/ActionMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index bb76bf3..b5ab584 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -269,7 +269,7 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         data += str.size();
         ssize += strsize + 4;
     }
-    if (payload.size() > maxPayloadSize) {
+    if (payload.size() >= maxPayloadSize) {
         if (buffer_size < ssize + payload.size() - maxPayloadSize + 4) {
             return -1;
         }
-- 
2.43.0


From acfefb78883b46161373332b484dd628cfcc3572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 07/40] fix: check the size of a packet before looking at its
 first byte

---
 src/helics/core/ActionMessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index b5ab584..9e10783 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -582,10 +582,10 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
 std::size_t ActionMessage::depacketize(const void* data, std::size_t buffer_size)
 {
     const auto* bytes = reinterpret_cast<const std::byte*>(data);
-    if (bytes[0] != static_cast<std::byte>(LEADING_CHAR)) {
+    if (buffer_size < 6) {
         return 0;
     }
-    if (buffer_size < 6) {
+    if (bytes[0] != static_cast<std::byte>(LEADING_CHAR)) {
         return 0;
     }
     unsigned int message_size = std::to_integer<unsigned char>(bytes[1]);
-- 
2.43.0


From 63b9a35a0562660bfb684df7826be93d414682de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 08/40] fix: do not look at the first character of the core
 type name "_"

---
 src/helics/core/coreTypeOperations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/coreTypeOperations.cpp b/src/helics/core/coreTypeOperations.cpp
index 7c1b1d1..ae8628e 100644
--- a/src/helics/core/coreTypeOperations.cpp
+++ b/src/helics/core/coreTypeOperations.cpp
@@ -152,7 +152,7 @@ CoreType coreTypeFromString(std::string_view type) noexcept
     if (fnd != coreTypes.end()) {
         return fnd->second;
     }
-    if ((type2.front() == '=') || (type2.front() == '-')) {
+    if (!type2.empty() && ((type2.front() == '=') || (type2.front() == '-'))) {
         return coreTypeFromString(type2.substr(1));
     }
     if (type.compare(0, 5, "zmqss") == 0) {
-- 
2.43.0


From 35df2109e7b9b872ff707f4d717746461a68055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 09/40] fix: let CMD_BROKER_PING name the broker ping command
 instead of the broker setup command

---
 src/helics/core/ActionMessageDefintions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessageDefintions.hpp b/src/helics/core/ActionMessageDefintions.hpp
index 682ddd0..3b106f0 100644
--- a/src/helics/core/ActionMessageDefintions.hpp
+++ b/src/helics/core/ActionMessageDefintions.hpp
@@ -234,7 +234,7 @@ across different compilers*/
 #define CMD_PING action_message_def::action_t::cmd_ping
 #define CMD_PING_PRIORITY action_message_def::action_t::cmd_ping_priority
 
-#define CMD_BROKER_PING action_message_def::action_t::cmd_broker_setup
+#define CMD_BROKER_PING action_message_def::action_t::cmd_broker_ping
 #define CMD_PING_REPLY action_message_def::action_t::cmd_ping_reply
 #define CMD_BROKER_SETUP action_message_def::action_t::cmd_broker_setup
 #define CMD_BROKER_LOCATION action_message_def::action_t::cmd_broker_location
-- 
2.43.0


From 991f946c1d7c5aa0e43cf64c46807a7a4442ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 10/40] fix: keep the type of a source that reconnects to an
 input

---
 src/helics/core/InputInfo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index 3c7a6f5..f283c6b 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -192,7 +192,10 @@ bool InputInfo::addSource(GlobalHandle newSource,
                 // this is a reconnection
                 deactivated[index] = Time::maxVal();
                 source_info[index].units = sunits;
-                source_info[index].type = sunits;
+                source_info[index].type = stype;
+                // the units and type may differ from the ones before the disconnection
+                inputUnits.clear();
+                inputType.clear();
                 return true;
             }
             return false;
-- 
2.43.0


From 62fcd60ec85124f583318b8f3d47e7621ebdb480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 11/40] fix: let multiple_connections_allowed allow multiple
 connections of publications and endpoints

---
 src/helics/core/EndpointInfo.cpp    | 2 +-
 src/helics/core/PublicationInfo.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/EndpointInfo.cpp b/src/helics/core/EndpointInfo.cpp
index 33dd21e..6893a70 100644
--- a/src/helics/core/EndpointInfo.cpp
+++ b/src/helics/core/EndpointInfo.cpp
@@ -368,7 +368,7 @@ void EndpointInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::CONNECTIONS:
             requiredConnections = value;
diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 59958a0..1865399 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -86,7 +86,7 @@ void PublicationInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::BUFFER_DATA:
             buffer_data = bvalue;
-- 
2.43.0


From af7cfef16fd2ff093c3adf5c60aa42080dd4a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 12/40] fix: list the current targets of an interface after
 they changed

---
 src/helics/core/EndpointInfo.cpp    | 6 ++++++
 src/helics/core/InputInfo.cpp       | 1 +
 src/helics/core/PublicationInfo.cpp | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/helics/core/EndpointInfo.cpp b/src/helics/core/EndpointInfo.cpp
index 6893a70..cec2165 100644
--- a/src/helics/core/EndpointInfo.cpp
+++ b/src/helics/core/EndpointInfo.cpp
@@ -187,6 +187,7 @@ void EndpointInfo::addDestination(GlobalHandle dest,
         }
     }
     targetInformation.emplace_back(dest, destName, destType);
+    destinationTargets.clear();
     /** now update the target information*/
     targets.reserve(targetInformation.size());
     targets.clear();
@@ -206,6 +207,7 @@ void EndpointInfo::addSource(GlobalHandle source,
         }
     }
     sourceInformation.emplace_back(source, sourceName, sourceType);
+    sourceTargets.clear();
 }
 
 /** remove a target from connection*/
@@ -219,6 +221,7 @@ void EndpointInfo::removeTarget(GlobalHandle targetId)
                                              });
         if (removeIterator != targetInformation.end()) {
             targetInformation.erase(removeIterator, targetInformation.end());
+            destinationTargets.clear();
             targets.clear();
             for (const auto& targetInfo : targetInformation) {
                 targets.emplace_back(targetInfo.id, targetInfo.key);
@@ -231,6 +234,7 @@ void EndpointInfo::removeTarget(GlobalHandle targetId)
                            sourceInformation.end(),
                            [targetId](const auto& sinfo) { return sinfo.id == targetId; });
         sourceInformation.erase(removeIterator, sourceInformation.end());
+        sourceTargets.clear();
     }
 }
 
@@ -244,6 +248,7 @@ void EndpointInfo::disconnectFederate(GlobalFederateId fedToDisconnect)
                                              });
         if (removeIterator != targetInformation.end()) {
             targetInformation.erase(removeIterator, targetInformation.end());
+            destinationTargets.clear();
             targets.clear();
             for (const auto& targetInfo : targetInformation) {
                 targets.emplace_back(targetInfo.id, targetInfo.key);
@@ -257,6 +262,7 @@ void EndpointInfo::disconnectFederate(GlobalFederateId fedToDisconnect)
                                                  return sinfo.id.fed_id == fedToDisconnect;
                                              });
         sourceInformation.erase(removeIterator, sourceInformation.end());
+        sourceTargets.clear();
     }
 }
 const std::string& EndpointInfo::getSourceTargets() const
diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index f283c6b..73694fa 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -205,6 +205,7 @@ bool InputInfo::addSource(GlobalHandle newSource,
     // clear this since it isn't well defined what the units are once a new source is added
     inputUnits.clear();
     inputType.clear();
+    sourceTargets.clear();
     input_sources.push_back(newSource);
     source_info.emplace_back(sourceName, stype, sunits);
     data_queues.resize(input_sources.size());
diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 1865399..8b47640 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -46,6 +46,7 @@ bool PublicationInfo::addSubscriber(GlobalHandle newSubscriber, std::string_view
         }
     }
     subscribers.emplace_back(newSubscriber, subscriberName);
+    destTargets.clear();
     return true;
 }
 
@@ -57,6 +58,7 @@ void PublicationInfo::disconnectFederate(GlobalFederateId fedToDisconnect)
                                          return val.id.fed_id == fedToDisconnect;
                                      }),
                       subscribers.end());
+    destTargets.clear();
 }
 
 void PublicationInfo::removeSubscriber(GlobalHandle subscriberToRemove)
@@ -67,6 +69,7 @@ void PublicationInfo::removeSubscriber(GlobalHandle subscriberToRemove)
                                          return val.id == subscriberToRemove;
                                      }),
                       subscribers.end());
+    destTargets.clear();
 }
 
 void PublicationInfo::setProperty(int32_t option, int32_t value)
-- 
2.43.0


From 661f92e764ebf88a9cb49e0ad2b1d7b22c2fcff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 13/40] fix: take the first iteration at the new time whatever
 the iteration of older data was

---
 src/helics/core/InputInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index 73694fa..ef2de80 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -416,7 +416,9 @@ bool InputInfo::updateTimeNextIteration(Time newTime)
         }
         if (currentValue != it_final) {
             if (currentValue->time == newTime) {
-                auto cindex = last->iteration;
+                // if there is older data the first iteration at newTime is the one of the next value
+                auto cindex =
+                    (last->time == newTime) ? last->iteration : currentValue->iteration;
                 while ((currentValue != it_final) && (currentValue->time == newTime) &&
                        (currentValue->iteration == cindex)) {
                     last = currentValue;
-- 
2.43.0


From c8b15711d582ffd5ca785128e5b61e08615f11c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 14/40] fix: remove a target of a filter that is not the first
 one from the right list

---
 src/helics/core/FilterInfo.cpp | 35 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/helics/core/FilterInfo.cpp b/src/helics/core/FilterInfo.cpp
index 746c50e..4929829 100644
--- a/src/helics/core/FilterInfo.cpp
+++ b/src/helics/core/FilterInfo.cpp
@@ -57,29 +57,24 @@ void FilterInfo::addSourceEndpoint(GlobalHandle dest,
 /** remove a target from connection*/
 void FilterInfo::removeTarget(GlobalHandle targetId)
 {
-    auto si = sourceEndpoints.begin();
-    while (si != sourceEndpoints.end()) {
-        if (si->id == targetId) {
-            sourceEndpoints.erase(si);
-            sourceTargets.clear();
-            for (const auto& sim : sourceEndpoints) {
-                sourceTargets.emplace_back(sim.id);
-            }
-            sourceEpts.clear();
-            break;
+    auto isTarget = [targetId](const auto& endpoint) { return endpoint.id == targetId; };
+    auto si = std::find_if(sourceEndpoints.begin(), sourceEndpoints.end(), isTarget);
+    if (si != sourceEndpoints.end()) {
+        sourceEndpoints.erase(si);
+        sourceTargets.clear();
+        for (const auto& sim : sourceEndpoints) {
+            sourceTargets.emplace_back(sim.id);
         }
+        sourceEpts.clear();
     }
-    auto di = destEndpoints.begin();
-    while (di != destEndpoints.end()) {
-        if (di->id == targetId) {
-            destEndpoints.erase(si);
-            destTargets.clear();
-            for (const auto& dim : destEndpoints) {
-                destTargets.emplace_back(dim.id);
-            }
-            destEpts.clear();
-            break;
+    auto di = std::find_if(destEndpoints.begin(), destEndpoints.end(), isTarget);
+    if (di != destEndpoints.end()) {
+        destEndpoints.erase(di);
+        destTargets.clear();
+        for (const auto& dim : destEndpoints) {
+            destTargets.emplace_back(dim.id);
         }
+        destEpts.clear();
     }
 }
 
-- 
2.43.0


From be78d4472a1506ceafb8f0965ce7795dae1461b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 15/40] fix: tell the endpoints that a closed filter filters
 only on arrival

---
 src/helics/core/FilterFederate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 44783b9..112e651 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -604,7 +604,7 @@ void FilterFederate::handleMessage(ActionMessage& command)
                     mSendMessage(rem);
                 }
                 for (auto& target : filt->destTargets) {
-                    if (std::find(filt->sourceTargets.begin(), filt->sourceTargets.end(), target) !=
+                    if (std::find(filt->sourceTargets.begin(), filt->sourceTargets.end(), target) ==
                         filt->sourceTargets.end()) {
                         rem.setDestination(target);
                         mSendMessage(rem);
-- 
2.43.0


From 2b14c727039bcc0716cbff5f28fb3f13ebe00c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 16/40] fix: answer the unit mismatch option of an input as it
 was set

---
 src/helics/core/InputInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index ef2de80..11b8513 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -579,6 +579,9 @@ int32_t InputInfo::getProperty(int32_t option) const
         case defs::Options::STRICT_TYPE_CHECKING:
             flagval = strict_type_matching;
             break;
+        case defs::Options::IGNORE_UNIT_MISMATCH:
+            flagval = ignore_unit_mismatch;
+            break;
         case defs::Options::CONNECTIONS:
             return static_cast<int32_t>(input_sources.size());
         case defs::Options::INPUT_PRIORITY_LOCATION:
-- 
2.43.0


From acfd263f4236e20a710132b343278720cfaf2316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 17/40] fix: answer the reconnectable option of an interface as
 it was set

---
 src/helics/core/CommonCore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 2c7f2d7..74fca8f 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -1512,6 +1512,7 @@ int32_t CommonCore::getHandleOption(InterfaceHandle handle, int32_t option) cons
     switch (option) {
         case defs::Options::CONNECTION_REQUIRED:
         case defs::Options::CONNECTION_OPTIONAL:
+        case defs::Options::RECONNECTABLE:
             return handles.read(
                 [handle, option](auto& hand) { return hand.getHandleOption(handle, option); });
         default:
-- 
2.43.0


From 5ac2adfbde40ce2c4bd9896aa4d91e7749639d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 18/40] fix: let the interruptible flag of a federate be set as
 it can be read

---
 src/helics/core/TimeCoordinator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 9efa92d..e0877f0 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -1442,6 +1442,9 @@ void TimeCoordinator::setOptionFlag(int optionFlag, bool value)
         case defs::Flags::UNINTERRUPTIBLE:
             info.uninterruptible = value;
             break;
+        case defs::Flags::INTERRUPTIBLE:
+            info.uninterruptible = !value;
+            break;
         case defs::Flags::WAIT_FOR_CURRENT_TIME_UPDATE:
             info.wait_for_current_time_updates = value;
             break;
-- 
2.43.0


From c0cc7f5084bd2e23a3f31dbdb79ea8258a0342ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 19/40] fix: end the delay of the initialization when its flag
 is cleared

---
 src/helics/core/CommonCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 74fca8f..9d57c84 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -1172,7 +1172,7 @@ void CommonCore::setFlagOption(LocalFederateId federateID, int32_t flag, bool fl
                     ++delayInitCounter;
                 } else {
                     ActionMessage cmd(CMD_CORE_CONFIGURE);
-                    cmd.messageID = defs::Flags::DELAY_INIT_ENTRY;
+                    cmd.messageID = defs::Flags::ENABLE_INIT_ENTRY;
                     addActionMessage(cmd);
                 }
                 break;
-- 
2.43.0


From db53e1ce742597e9b2e394d53a10ca5fdee064a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 20/40] fix: answer the debugging flag of a core or federate as
 it was set

---
 src/helics/core/CommonCore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 9d57c84..1139fd4 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -1212,8 +1212,12 @@ bool CommonCore::getFlagOption(LocalFederateId federateID, int32_t flag) const
             return (delayInitCounter.load() != 0);
         case defs::Flags::DUMPLOG:
         case defs::Flags::FORCE_LOGGING_FLUSH:
-        case defs::Flags::DEBUGGING:
             return getFlagValue(flag);
+        case defs::Flags::DEBUGGING:
+            if (federateID == gLocalCoreId) {
+                return debugging;
+            }
+            break;
         case defs::Flags::FORWARD_COMPUTE:
         case defs::Flags::SINGLE_THREAD_FEDERATE:
         case defs::Flags::ROLLBACK:
-- 
2.43.0


From ceae426dda71e2d24d819ee1d923ac973ea039b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 21/40] fix: answer the terminate_on_error and slow_responding
 flags of a core as they were set

---
 src/helics/core/CommonCore.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 1139fd4..27b44de 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -1226,10 +1226,16 @@ bool CommonCore::getFlagOption(LocalFederateId federateID, int32_t flag) const
             break;
     }
     if (federateID == gLocalCoreId) {
-        if (flag == defs::Properties::LOG_BUFFER) {
-            return (mLogManager->getLogBuffer().capacity() > 0);
+        switch (flag) {
+            case defs::Properties::LOG_BUFFER:
+                return (mLogManager->getLogBuffer().capacity() > 0);
+            case defs::Flags::TERMINATE_ON_ERROR:
+                return terminate_on_error;
+            case defs::Flags::SLOW_RESPONDING:
+                return no_ping;
+            default:
+                return false;
         }
-        return false;
     }
     auto* fed = getFederateAt(federateID);
     if (fed == nullptr) {
-- 
2.43.0


From bf14dd5086deb73f309ccbbd791663a7542feb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 22/40] fix: a time restricted publication publishes its first
 value

lastPublishTime started at time zero, so with a minimum time gap everything published up to that gap after time zero was
dropped although nothing had been published before; all readers of the field treat Time::minVal() as never published.
---
 src/helics/core/PublicationInfo.cpp | 2 +-
 src/helics/core/PublicationInfo.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 8b47640..7e76669 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -20,7 +20,7 @@ bool PublicationInfo::CheckSetValue(const char* dataToCheck,
                                     Time currentTime,
                                     bool forceChangeCheck)
 {
-    if (minTimeGap > timeZero) {
+    if (minTimeGap > timeZero && lastPublishTime > Time::minVal()) {
         if (currentTime - lastPublishTime < minTimeGap) {
             return false;
         }
diff --git a/src/helics/core/PublicationInfo.hpp b/src/helics/core/PublicationInfo.hpp
index db8fc13..0ad267f 100644
--- a/src/helics/core/PublicationInfo.hpp
+++ b/src/helics/core/PublicationInfo.hpp
@@ -40,7 +40,8 @@ class PublicationInfo {
     const std::string type;  //!< the type of the publication data
     const std::string units;  //!< the units of the publication data
     SmallBuffer data;  //!< the most recent publication data
-    Time lastPublishTime{timeZero};  //!< the time of the last publication
+    /// the time of the last publication, Time::minVal() if there was none
+    Time lastPublishTime{Time::minVal()};
     bool has_update{false};  //!< indicator that the publication has updates
     bool only_update_on_change{false};
     bool required{false};  //!< indicator that it is required to be output someplace
-- 
2.43.0


From f88eaf64b57fcfd1d2e9a2b361931249e069175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 23/40] fix: a broker that is no longer ready for
 initialization tells its parent under its own id

---
 src/helics/core/CoreBroker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4b81e2d..d96e7bc 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1654,6 +1654,7 @@ void CoreBroker::processInitCommand(ActionMessage& cmd)
 
         } break;
         case CMD_INIT_NOT_READY: {
+            auto* brk = getBrokerById(GlobalBrokerId{cmd.source_id});
             if (allInitReady()) {
                 if (isRootc) {
                     LOG_WARNING(global_broker_id_local,
@@ -1661,9 +1662,10 @@ void CoreBroker::processInitCommand(ActionMessage& cmd)
                                 "received init not ready but already init");
                     break;
                 }
+                // the parent knows this broker as the one that was ready
+                cmd.source_id = global_broker_id_local;
                 transmit(parent_route_id, cmd);
             }
-            auto* brk = getBrokerById(GlobalBrokerId{cmd.source_id});
             if (brk != nullptr) {
                 brk->state = ConnectionState::CONNECTED;
                 brk->initIterating = false;
-- 
2.43.0


From 574d59966af595c31ac15c83396924a12fa7783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 24/40] fix: a delayed request for initialization keeps the
 request to iterate

---
 src/helics/core/CommonCore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 27b44de..56bc76c 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4959,6 +4959,9 @@ void CommonCore::processCoreConfigureCommands(ActionMessage& cmd)
                             BrokerState::INITIALIZING)) {  // make sure we only do this once
                         checkDependencies();
                         cmd.setAction(CMD_INIT);
+                        if (initIterations.load()) {
+                            setActionFlag(cmd, iteration_requested_flag);
+                        }
                         cmd.source_id = global_broker_id_local;
                         cmd.dest_id = parent_broker_id;
                         transmit(parent_route_id, cmd);
-- 
2.43.0


From 5abd90a166d6d6299397176b1c4ab9913ac8d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 25/40] fix: a registration that is refused does not take back
 the readiness of a broker

---
 src/helics/core/CoreBroker.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index d96e7bc..57f026d 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -400,13 +400,9 @@ void CoreBroker::brokerRegistration(ActionMessage&& command)
     }
 
     auto currentBrokerState = getBrokerState();
+    bool wasReady{false};
     if (currentBrokerState < BrokerState::OPERATING) {
-        if (allInitReady()) {
-            // send an init not ready as we were ready now we are not
-            ActionMessage noInit(CMD_INIT_NOT_READY);
-            noInit.source_id = global_broker_id_local;
-            transmit(parent_route_id, noInit);
-        }
+        wasReady = allInitReady();
     } else if (currentBrokerState == BrokerState::OPERATING) {
         // we are initialized already
         if (!checkActionFlag(command, observer_flag) && !dynamicFederation) {
@@ -451,6 +447,12 @@ void CoreBroker::brokerRegistration(ActionMessage&& command)
         sendBrokerErrorAck(command, duplicate_broker_name_error_code);
         return;
     }
+    if (wasReady) {
+        // send an init not ready as we were ready now we are not
+        ActionMessage noInit(CMD_INIT_NOT_READY);
+        noInit.source_id = global_broker_id_local;
+        transmit(parent_route_id, noInit);
+    }
     if ((!command.source_id.isValid()) || (command.source_id == parent_broker_id)) {
         // TODO(PT): this will need to be updated when we enable mesh routing
         mBrokers.back().route = generateRouteId(jsonReply ? json_route_code : 0, routeCount++);
@@ -555,12 +557,9 @@ void CoreBroker::fedRegistration(ActionMessage&& command)
         sendFedErrorAck(command, max_federate_count_exceeded);
         return;
     }
+    bool wasReady{false};
     if (getBrokerState() < BrokerState::OPERATING) {
-        if (countable && allInitReady()) {
-            ActionMessage noInit(CMD_INIT_NOT_READY);
-            noInit.source_id = global_broker_id_local;
-            transmit(parent_route_id, noInit);
-        }
+        wasReady = countable && allInitReady();
     } else if (getBrokerState() == BrokerState::OPERATING) {
         const bool allowed =
             dynamicFederation || !countable || checkActionFlag(command, observer_flag);
@@ -598,6 +597,11 @@ void CoreBroker::fedRegistration(ActionMessage&& command)
             sendFedErrorAck(command, duplicate_federate_name_error_code);
             return;
         }
+        if (wasReady) {
+            ActionMessage noInit(CMD_INIT_NOT_READY);
+            noInit.source_id = global_broker_id_local;
+            transmit(parent_route_id, noInit);
+        }
         mFederates.insert(fedName, no_search, fedName);
         mFederates.back().route = getRoute(command.source_id);
         mFederates.back().parent = command.source_id;
-- 
2.43.0


From aa843122fb3d48544f22dab1ade619ea00ecc8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 26/40] fix: a completed map does not keep the other waiting
 queries from being answered on a disconnect

---
 src/helics/core/CommonCore.cpp | 2 +-
 src/helics/core/CoreBroker.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 56bc76c..16ed0d6 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5369,7 +5369,7 @@ void CommonCore::checkInFlightQueriesForDisconnect()
         auto& builder = std::get<0>(builderData);
         auto& requesters = std::get<1>(builderData);
         if (builder.isCompleted()) {
-            return;
+            continue;
         }
         if (builder.clearComponents()) {
             auto str = builder.generate();
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 57f026d..1c0b7f2 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3492,7 +3492,7 @@ void CoreBroker::checkInFlightQueries(GlobalBrokerId brkid)
         auto& builder = std::get<0>(builderData);
         auto& requesters = std::get<1>(builderData);
         if (builder.isCompleted()) {
-            return;
+            continue;
         }
         if (builder.clearComponents(brkid.baseValue())) {
             auto str = builder.generate();
-- 
2.43.0


From d53554bce4f1d18c795a79a7f6bd907b6500f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 27/40] fix: answer every query a core made itself when several
 wait for the same map

---
 src/helics/core/CommonCore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 16ed0d6..a929311 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4323,7 +4323,8 @@ void CommonCore::processQueryResponse(const ActionMessage& message)
                 str = "{\"status\":true}";
             }
             for (int ii = 0; ii < static_cast<int>(requesters.size()) - 1; ++ii) {
-                if (requesters[ii].dest_id == global_broker_id_local) {
+                if (requesters[ii].dest_id == global_broker_id_local ||
+                    requesters[ii].dest_id == gDirectCoreId) {
                     activeQueries.setDelayedValue(requesters[ii].messageID, str);
                 } else {
                     requesters[ii].payload = str;
@@ -5374,14 +5375,16 @@ void CommonCore::checkInFlightQueriesForDisconnect()
         if (builder.clearComponents()) {
             auto str = builder.generate();
             for (int ii = 0; ii < static_cast<int>(requesters.size()) - 1; ++ii) {
-                if (requesters[ii].dest_id == global_broker_id_local) {
+                if (requesters[ii].dest_id == global_broker_id_local ||
+                    requesters[ii].dest_id == gDirectCoreId) {
                     activeQueries.setDelayedValue(requesters[ii].messageID, str);
                 } else {
                     requesters[ii].payload = str;
                     routeMessage(std::move(requesters[ii]));
                 }
             }
-            if (requesters.back().dest_id == global_broker_id_local) {
+            if (requesters.back().dest_id == global_broker_id_local ||
+                requesters.back().dest_id == gDirectCoreId) {
                 activeQueries.setDelayedValue(requesters.back().messageID, std::move(str));
             } else {
                 requesters.back().payload = std::move(str);
-- 
2.43.0


From 5a94c0313ed8794da043b9be7f1db04c67f1b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 28/40] fix: a query to a core by its name waits for the parts
 of its answer

---
 src/helics/core/CommonCore.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index a929311..c119e99 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5150,6 +5150,13 @@ void CommonCore::processQueryCommand(ActionMessage& cmd)
                 if (target == getIdentifier()) {
                     queryResp.source_id = global_broker_id_local;
                     repStr = coreQuery(cmd.payload.to_string(), force_ordered);
+                    if (repStr == "#wait") {
+                        // the answer is sent once all the parts of it are known
+                        std::get<1>(
+                            mapBuilders[commonCoreMapIndex().at(cmd.payload.to_string()).first])
+                            .push_back(queryResp);
+                        break;
+                    }
                 } else {
                     auto* fedptr = getFederateCore(target);
                     repStr = federateQuery(fedptr, cmd.payload.to_string(), force_ordered);
-- 
2.43.0


From 142c0ab0d137c0f448816bfe5a65d709d03acc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 29/40] fix: a closed source filter does not shift the position
 of the filters after it

---
 src/helics/core/FilterFederate.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 112e651..557a72e 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -376,9 +376,8 @@ ActionMessage& FilterFederate::processMessage(ActionMessage& command, const Basi
         return command;
     }
     if (filtFunc->hasSourceFilters) {
-        //   for (int ii = 0; ii < static_cast<int> (filtFunc->sourceFilters.size ()); ++ii)
-        size_t ii = 0;
-        for (auto& filt : filtFunc->sourceFilters) {
+        for (size_t ii = 0; ii < filtFunc->sourceFilters.size(); ++ii) {
+            auto* filt = filtFunc->sourceFilters[ii];
             if (checkActionFlag(*filt, disconnected_flag)) {
                 continue;
             }
@@ -399,7 +398,6 @@ ActionMessage& FilterFederate::processMessage(ActionMessage& command, const Basi
                 }
                 return command;
             }
-            ++ii;
         }
     }
     return command;
-- 
2.43.0


From 0bb8ac4d0aa28c795679a8bb8828417549337bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 30/40] fix: a message that returns from its last active filter
 goes to its target, not back to its sender

---
 src/helics/core/FilterFederate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 557a72e..7cc4f82 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -262,6 +262,9 @@ void FilterFederate::processFilterReturn(ActionMessage& cmd)
         }
         auto* filtFunc = getFilterCoordinator(handle->getInterfaceHandle());
         cmd.setAction(CMD_SEND_MESSAGE);
+        // the message came back to the endpoint it was sent from, it still has to go to its target
+        cmd.dest_id = parent_broker_id;
+        cmd.dest_handle = InterfaceHandle{};
         bool needToSendMessage{true};
         for (auto ii = static_cast<size_t>(cmd.counter) + 1; ii < filtFunc->sourceFilters.size();
              ++ii) {
-- 
2.43.0


From 28e562dd7d78b3d58540ca142bc1f1bcf710f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 31/40] fix: messages that return from filters in another order
 no longer block time for good

---
 src/helics/core/FilterFederate.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 7cc4f82..22e1917 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -417,7 +417,7 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                                                              // processing destination filter
                     // first block the federate time advancement until the return is
                     // received
-                    auto mid = ++messageCounter;
+                    auto mid = messageCounter++;
                     auto fed_id = handle->getFederateId();
                     generateDestProcessMarker(handle->getFederateId(), mid, command.actionTime);
 
@@ -511,16 +511,16 @@ void FilterFederate::addTimeReturn(int32_t id, Time TimeVal)
 
 void FilterFederate::clearTimeReturn(int32_t id)
 {
-    if (timeBlockProcesses.empty()) {
-        return;
-    }
     bool recheckTime = false;
-    if (timeBlockProcesses.front().first == id) {
-        if (timeBlockProcesses.front().second == minReturnTime) {
+    // the filters can return the messages in any order
+    auto tBProcess = std::find_if(timeBlockProcesses.begin(),
+                                  timeBlockProcesses.end(),
+                                  [id](const auto& tBP) { return tBP.first == id; });
+    if (tBProcess != timeBlockProcesses.end()) {
+        if (tBProcess->second == minReturnTime) {
             recheckTime = true;
         }
-        timeBlockProcesses.pop_front();
-    } else {
+        timeBlockProcesses.erase(tBProcess);
     }
     if (recheckTime) {
         minReturnTime = cBigTime;
-- 
2.43.0


From 065f252d4c9e58c601eca4d0c1c5cb8ce9e118b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 32/40] fix: a destination filter may drop a message

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 22e1917..1a47e1f 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -438,6 +438,10 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     auto tempMessage = createMessageFromCommand(std::move(command));
                     auto odest = tempMessage->dest;
                     auto nmessage = ffunc->destFilter->filterOp->process(std::move(tempMessage));
+                    if (!nmessage) {
+                        // the filter dropped the message
+                        return false;
+                    }
                     if (odest == nmessage->dest) {
                         command = std::move(nmessage);
                     } else {
-- 
2.43.0


From 8de05d8d6951fc0781e87356f5d04467fa506370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 33/40] fix: a copy for a cloning filter that is closed is not
 delivered as a second message

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 1a47e1f..70df588 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -151,6 +151,10 @@ void FilterFederate::processMessageFilter(ActionMessage& cmd)
                     ((cmd.action() == CMD_SEND_FOR_FILTER_AND_RETURN) || destFilter);
                 auto source = cmd.getSource();
                 if (!returnToSender) {
+                    if (FiltI->cloning) {
+                        // this was only a copy of the message
+                        return;
+                    }
                     cmd.setAction(CMD_SEND_MESSAGE);
                     cmd.dest_id = parent_broker_id;
                     cmd.dest_handle = InterfaceHandle();
-- 
2.43.0


From 86a8a7ef7c7580b077a1d84821103b60edb155ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 34/40] fix: a source filter without an operation passes the
 message on

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 70df588..ad77ba3 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -339,6 +339,10 @@ std::pair<ActionMessage&, bool> FilterFederate::executeFilter(ActionMessage& com
 {
     mCoord.triggered = true;
     if (filt->core_id == mFedID) {
+        if (!filt->filterOp) {
+            // without an operation the message passes unchanged
+            return {command, true};
+        }
         if (filt->cloning) {
             // cloning filter returns a vector
             auto new_messages = filt->filterOp->processVector(createMessageFromCommand(command));
-- 
2.43.0


From 9148039c018872e83986f40e0fed8b6e8a2d6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 35/40] fix: a message that goes away after a filter of this
 core finds its way back

---
 src/helics/core/FilterFederate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index ad77ba3..82a5fe2 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -401,6 +401,8 @@ ActionMessage& FilterFederate::processMessage(ActionMessage& command, const Basi
                 if (ii < filtFunc->sourceFilters.size() - 1) {
                     command.setAction(CMD_SEND_FOR_FILTER_AND_RETURN);
                     command.sequenceID = messageCounter++;
+                    // a filter on this core may have made a new message without a source id
+                    command.setSource(handle->handle);
                     generateProcessMarker(handle->getFederateId(),
                                           command.sequenceID,
                                           command.actionTime);
-- 
2.43.0


From 20d79f03e42eff06df1c197f3e047632ea63281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 36/40] fix: a destination filter of this core can send a
 message elsewhere

---
 src/helics/core/FilterFederate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 82a5fe2..3c36d75 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -457,6 +457,9 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     } else {
                         // handle destination reroute filters
                         command = std::move(nmessage);
+                        // the new destination is known by its name
+                        command.dest_id = parent_broker_id;
+                        command.dest_handle = InterfaceHandle{};
                         mDeliverMessage(command);
                         return false;
                     }
-- 
2.43.0


From 4a20d1028ddaa5d3fc70cdba46ea07d1f79d0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 37/40] fix: a core with a translator does not disconnect while
 its federates are running

---
 src/helics/core/CommonCore.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index c119e99..515a67e 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5345,18 +5345,12 @@ bool CommonCore::checkAndProcessDisconnect()
             dis.source_id = filterFedID;
             filterFed->handleMessage(dis);
         }
-
-        return true;
-    }
-    if (translatorFed != nullptr) {
-        if (!translatorFed->hasActiveTimeDependencies()) {
-            ActionMessage dis(CMD_DISCONNECT);
-            dis.source_id = global_broker_id_local;
-            transmit(parent_route_id, dis);
+        if (translatorFed != nullptr) {
             dis.source_id = translatorFedID;
             translatorFed->handleMessage(dis);
-            return true;
         }
+
+        return true;
     }
     return false;
 }
-- 
2.43.0


From 979e324da35941261125c324b8e5f310a3350382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:31 +0000
Subject: [PATCH 38/40] fix: subscriptions query does not release the federate
 lock its caller holds

---
 src/helics/core/FederateState.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 5ddac6c..2bee7d0 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2725,7 +2725,6 @@ std::string FederateState::processQueryActual(std::string_view query) const
             }
         }
         ipts.unlock();
-        unlock();
         auto str = subs.str();
         if (str.back() == ';') {
             str.pop_back();
-- 
2.43.0


From ee8b962088d4bc60878167b014fb94be37c38691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:31 +0000
Subject: [PATCH 39/40] fix: write an existing federate tag before releasing
 the lock

---
 src/helics/core/FederateState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 2bee7d0..b46ed4e 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2934,8 +2934,8 @@ void FederateState::setTag(std::string_view tag, std::string_view value)
     spinlock();
     for (auto& testTag : tags) {
         if (testTag.first == tag) {
-            unlock();
             testTag.second = value;
+            unlock();
             return;
         }
     }
-- 
2.43.0


From d62ad47b511713a95e948ea94f835a2978e63183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:31 +0000
Subject: [PATCH 40/40] fix: waitSetup releases the federate lock before it
 tries again

---
 src/helics/core/FederateState.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index b46ed4e..248d687 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -517,10 +517,11 @@ IterationResult FederateState::waitSetup()
     }
     // this function can fail try_lock gracefully
 
-    const std::scoped_lock<FederateState> fedlock(*this);
+    sleeplock();
     IterationResult ret;
     switch (getState()) {
         case FederateStates::CREATED: {  // we are still in the created state
+            unlock();
             return waitSetup();
         }
         case FederateStates::ERRORED:
@@ -533,7 +534,7 @@ IterationResult FederateState::waitSetup()
             ret = IterationResult::NEXT_STEP;
             break;
     }
-
+    unlock();
     return ret;
 }
 
-- 
2.43.0

