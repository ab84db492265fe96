From 470a6b8c17171fc241f9d81f8bf54b51355caf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 01/52] fix: correct the type label of vector<bool> properties

---
 fairmq/Properties.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Properties.cxx b/fairmq/Properties.cxx
index 4c076b7..6bdbe8c 100644
--- a/fairmq/Properties.cxx
+++ b/fairmq/Properties.cxx
@@ -91,7 +91,7 @@ unordered_map<type_index, function<pair<string, string>(const Property&)>> Prope
     { type_index(typeid(double)),                          [](const Property& p) { return getStringPair<double>(p, "double"); } },
     { type_index(typeid(long double)),                     [](const Property& p) { return getStringPair<long double>(p, "long double"); } },
     { type_index(typeid(bool)),                            [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<bool>(p); return pair<string, string>{ ss.str(), "bool" }; } },
-    { type_index(typeid(vector<bool>)),                    [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<vector<bool>>(p); return pair<string, string>{ ss.str(), "vector<bool>>" }; } },
+    { type_index(typeid(vector<bool>)),                    [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<vector<bool>>(p); return pair<string, string>{ ss.str(), "vector<bool>" }; } },
     { type_index(typeid(fs::path)),                        [](const Property& p) { return getStringPair<fs::path>(p,
 #if FAIRMQ_HAS_STD_FILESYSTEM
                                                                                                                   "std::filesystem::path"); } },
-- 
2.43.0


From 56da0996dbf5796dbd52ea7eecf547df33632fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 02/52] fix: keep limiting rates below 1 Hz after an iteration
 that took too long

The number of iterations until the next check became 0, so that the limiter did
not check again before the counter had wrapped around.
---
 fairmq/tools/RateLimit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/tools/RateLimit.h b/fairmq/tools/RateLimit.h
index cbca179..3005d69 100644
--- a/fairmq/tools/RateLimit.h
+++ b/fairmq/tools/RateLimit.h
@@ -88,7 +88,7 @@ class RateLimiter
                     // duration_cast<microseconds>(ts).count() << "µs\n";
                 } else {
                     skip_check_count =
-                        std::min(int(seconds(1) / tw_req),   // recheck at least every second
+                        std::min(std::max(1, int(seconds(1) / tw_req)),   // recheck at least every second
                                  (skip_check_count * 5 + 3) / 4);
                     // std::cerr << s.str() << "maybe_sleep: going too slow; work more: " <<
                     // skip_check_count << "\n";
-- 
2.43.0


From ea758e6aae97617ba548e36889335e8353a94499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 03/52] fix: do not drop the last line of a command's output if
 it is not terminated

execute() read both streams line by line and discarded what was left in the
buffer at the end of the stream.
---
 fairmq/tools/Process.cxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fairmq/tools/Process.cxx b/fairmq/tools/Process.cxx
index b76adfb..1aabf73 100644
--- a/fairmq/tools/Process.cxx
+++ b/fairmq/tools/Process.cxx
@@ -126,6 +126,14 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
             ba::async_read_until(outputPipe, outputBuffer, delimiter, onStdOut);
         } else {
             if (ec == ba::error::eof) {
+                // last line without delimiter
+                if (outputBuffer.size() > 0) {
+                    istream is(&outputBuffer);
+                    string line;
+                    getline(is, line);
+
+                    p.Print(line);
+                }
                 // outputPipe.async_close();
             } else {
                 p.Print(ec.message());
@@ -146,6 +154,14 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
             ba::async_read_until(errorPipe, errorBuffer, delimiter, onStdErr);
         } else {
             if (ec == ba::error::eof) {
+                // last line without delimiter
+                if (errorBuffer.size() > 0) {
+                    istream is(&errorBuffer);
+                    string line;
+                    getline(is, line);
+
+                    p.Print(ToString("error: ", line));
+                }
                 // errorPipe.async_close();
             } else {
                 p.Print(ec.message());
-- 
2.43.0


From be9aab191fdcb7e3484c46375ca4062d792ad4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 04/52] fix: align shared memory messages correctly for
 alignments above 64 KiB

The offset of the user buffer was truncated to 16 bits, so that the buffer was
neither aligned as requested nor, after shrinking, of the right size.
---
 fairmq/shmem/Common.h  | 6 +++---
 fairmq/shmem/Message.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index ed35016..d290886 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -89,7 +89,7 @@ struct ShmHeader
 {
     struct Hdr
     {
-        uint16_t userOffset;
+        uint32_t userOffset;
         std::atomic<uint16_t> refCount;
     };
 
@@ -113,7 +113,7 @@ struct ShmHeader
         return HdrPtr(ptr)->refCount;
     }
 
-    static uint16_t UserOffset(char* ptr)
+    static size_t UserOffset(char* ptr)
     {
         return HdrPartSize() + HdrPtr(ptr)->userOffset;
     }
@@ -148,7 +148,7 @@ struct ShmHeader
         memcpy(ptr, &hdrOffset, sizeof(hdrOffset));
 
         // offset to the beginning of the user buffer, store in Hdr together with the ref count
-        uint16_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
+        uint32_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
         new(ptr + sizeof(uint16_t) + hdrOffset) Hdr{ userOffset, std::atomic<uint16_t>(1) };
     }
 
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..470cb07 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -199,7 +199,7 @@ class Message final : public fair::mq::Message
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-                    uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
+                    size_t userOffset = ShmHeader::UserOffset(oldPtr);
                     char* ptr = fManager.ShrinkInPlace(userOffset + newSize, oldPtr, fSegmentId);
                     fLocalPtr = ShmHeader::UserPtr(ptr);
                     fSize = newSize;
-- 
2.43.0


From 46470f71ada07bf968afdd40ad93dd21b9a05cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 05/52] fix: validate each endpoint of a channel address, they
 are separated by commas

AttachChannel (and the documentation) separate the endpoints of a channel by ',', Validate by ';', so that only the first
endpoint was validated.
---
 fairmq/Channel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Channel.cxx b/fairmq/Channel.cxx
index 4806e6e..e01a197 100644
--- a/fairmq/Channel.cxx
+++ b/fairmq/Channel.cxx
@@ -205,7 +205,7 @@ try {
         return false;
     } else {
         vector<string> endpoints;
-        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(";"));
+        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(","));
         for (const auto& endpoint : endpoints) {
             string address;
             if (endpoint[0] == '@' || endpoint[0] == '+' || endpoint[0] == '>') {
-- 
2.43.0


From e35c2080b536eb83518a2925c8f0950944d405f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 06/52] fix: refuse transitions in the error state

Events are dropped in a terminate state without a call to no_transition, so that the result of the last transition was returned.
---
 fairmq/StateMachine.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..06a6012 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -259,6 +259,8 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
+        // in the error state events are dropped without a call to no_transition
+        fsm->fLastTransitionResult = (transition == Transition::ErrorFound);
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From 6ad111b992e496c25e405935c7f78820dc393da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 07/52] fix: do not crash on channel descriptions with a name
 or address without a value

---
 fairmq/SuboptParser.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/SuboptParser.cxx b/fairmq/SuboptParser.cxx
index 1d48563..e1a7ced 100644
--- a/fairmq/SuboptParser.cxx
+++ b/fairmq/SuboptParser.cxx
@@ -99,17 +99,17 @@ Properties SuboptParser(const vector<string>& channelConfig, const string& devic
         while (subopts && *subopts != 0 && *subopts != ' ') {
             char* cur = subopts;
             int subopt = getsubopt(&subopts, (char**)channelOptionKeys, &value);
-            if (subopt == NAME) {
+            if (subopt == NAME && value != nullptr) {
                 channelName = value;
                 channelProperties.put("name", channelName);
-            } else if (subopt == ADDRESS) {
+            } else if (subopt == ADDRESS && value != nullptr) {
                 ptree socketProperties;
                 socketProperties.put(channelOptionKeys[subopt], value);
                 socketsArray.push_back(make_pair("", socketProperties));
             } else if (subopt >= 0 && value != nullptr) {
                 channelProperties.put(channelOptionKeys[subopt], value);
-            } else if (subopt == -1) {
-                LOG(warn) << "Ignoring unknown argument in --channel-config: " << cur;
+            } else {
+                LOG(warn) << "Ignoring unknown argument or argument without a value in --channel-config: " << cur;
             }
         }
 
-- 
2.43.0


From 42971ca26ff788076997a7f9a441b51bc271ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:33 +0000
Subject: [PATCH 08/52] fix: flag only top-level FairMQ* names in fairmq-tidy,
 not types nested in classes or namespaces named so

---
 fairmq/tidy/ModernizeNonNamespacedTypes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/tidy/ModernizeNonNamespacedTypes.h b/fairmq/tidy/ModernizeNonNamespacedTypes.h
index 6796fec..e6f352c 100644
--- a/fairmq/tidy/ModernizeNonNamespacedTypes.h
+++ b/fairmq/tidy/ModernizeNonNamespacedTypes.h
@@ -26,7 +26,7 @@ struct ModernizeNonNamespacedTypes
 
         // https://clang.llvm.org/docs/LibASTMatchersReference.html
         finder.addMatcher(
-            typeLoc(loc(qualType(hasDeclaration(namedDecl(matchesName("::FairMQ")).bind("decl")))))
+            typeLoc(loc(qualType(hasDeclaration(namedDecl(matchesName("^::FairMQ[A-Za-z0-9_]*$")).bind("decl")))))
                 .bind("loc"),
             &fCallback);
     }
-- 
2.43.0


From 9c993df35cd497b099a61273f77d1e3ac1c5b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:15 +0000
Subject: [PATCH 09/52] fix: fairmq-tidy no longer flags implicit code, such as
 the conversion function of a lambda

---
 fairmq/tidy/ModernizeNonNamespacedTypes.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fairmq/tidy/ModernizeNonNamespacedTypes.h b/fairmq/tidy/ModernizeNonNamespacedTypes.h
index e6f352c..14009ff 100644
--- a/fairmq/tidy/ModernizeNonNamespacedTypes.h
+++ b/fairmq/tidy/ModernizeNonNamespacedTypes.h
@@ -13,6 +13,8 @@
 #include <clang/ASTMatchers/ASTMatchFinder.h>
 #include <clang/ASTMatchers/ASTMatchers.h>
 #include <clang/Basic/Diagnostic.h>
+#include <clang/Lex/Lexer.h>
+#include <llvm/ADT/SmallString.h>
 #include <llvm/Support/Casting.h>
 
 namespace fair::mq::tidy {
@@ -46,7 +48,15 @@ struct ModernizeNonNamespacedTypes
                 if (underlying_type.getAsString().rfind("fair::mq::", 0) == 0) {
                     auto& diag_engine(m.Context->getDiagnostics());
                     auto const location(type_loc->getBeginLoc());
-                    if (location.isValid()) {
+                    // implicit code (e.g. the conversion function of a lambda) does not spell the name
+                    auto const& source_manager(*m.SourceManager);
+                    llvm::SmallString<64> buffer;
+                    auto const spelling(
+                        Lexer::getSpelling(source_manager.getSpellingLoc(type_loc->getEndLoc()),
+                                           buffer,
+                                           source_manager,
+                                           m.Context->getLangOpts()));
+                    if (location.isValid() && spelling == named_decl->getName()) {
                         auto builder(diag_engine.Report(
                             location,
                             diag_engine.getCustomDiagID(
-- 
2.43.0


From 8da38a3c9d9e85e65111c418670cb928f8943d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 10/52] fix: keep the timeouts of a channel when it is added to
 the configuration

---
 fairmq/ProgOptions.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index ba13a8c..a420d68 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -369,6 +369,8 @@ void ProgOptions::AddChannel(const string& name, const Channel& channel)
     SetVarMapValue<int>(string(prefix + "rcvBufSize"), channel.GetRcvBufSize());
     SetVarMapValue<int>(string(prefix + "sndKernelSize"), channel.GetSndKernelSize());
     SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());
+    SetVarMapValue<int>(string(prefix + "sndTimeoutMs"), channel.GetSndTimeout());
+    SetVarMapValue<int>(string(prefix + "rcvTimeoutMs"), channel.GetRcvTimeout());
     SetVarMapValue<int>(string(prefix + "linger"), channel.GetLinger());
     SetVarMapValue<int>(string(prefix + "rateLogging"), channel.GetRateLogging());
     SetVarMapValue<int>(string(prefix + "portRangeMin"), channel.GetPortRangeMin());
-- 
2.43.0


From 32ef23f56cf92af69027586b4ca3aaf4ffbecce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 11/52] fix: tell as-string subscribers the value that was set,
 even if it changes again during the notification

---
 fairmq/ProgOptions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..84c669e 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -145,7 +145,7 @@ class ProgOptions
             lock.unlock();
 
             fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, fair::mq::PropertyHelper::GetPropertyInfo(val).first);
             return true;
         } else {
             LOG(debug) << "UpdateProperty failed, no property found with key '" << key << "'";
@@ -275,7 +275,7 @@ void fair::mq::ProgOptions::SetProperty(const std::string& key, T val)
     lock.unlock();
 
     fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, fair::mq::PropertyHelper::GetPropertyInfo(val).first);
 }
 
 extern template void fair::mq::ProgOptions::SetProperty<int>(const std::string& key, int val);
-- 
2.43.0


From f12622c0ebd8ed9b89a9fc82f459ff474c4fdc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:58 +0000
Subject: [PATCH 12/52] fix: copying a message to itself must not destroy it

---
 fairmq/shmem/Message.h  | 3 +++
 fairmq/zeromq/Message.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 470cb07..8dcb20c 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -262,6 +262,9 @@ class Message final : public fair::mq::Message
 
     void Copy(const fair::mq::Message& other) override
     {
+        if (this == &other) {
+            return;
+        }
         const Message& otherMsg = static_cast<const Message&>(other);
         // if the other message is not initialized, close this one too and return
         if (otherMsg.fHandle < 0) {
diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..9dce38e 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -255,6 +255,9 @@ class Message final : public fair::mq::Message
 
     void Copy(const fair::mq::Message& msg) override
     {
+        if (this == &msg) {
+            return;
+        }
         const Message& zMsg = static_cast<const Message&>(msg);
         // Shares the message buffer between msg and this fMsg.
         if (zmq_msg_copy(fMsg.get(), zMsg.GetMessage()) != 0) {
-- 
2.43.0


From 788d8e34e8c0a6e471f92a4b628a9ede4e310926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:28 +0000
Subject: [PATCH 13/52] fix: receiving into a used shared memory message must
 release its former buffer

---
 fairmq/shmem/Message.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 8dcb20c..6dafc3a 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -339,6 +339,9 @@ class Message final : public fair::mq::Message
 
     void SetMeta(const MetaHeader& meta)
     {
+        // release whatever the message held before
+        CloseMessage();
+        fQueued = false;
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
-- 
2.43.0


From 4f2624d9ca06a1602c9d02966b8ef0bdbe508008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:33 +0000
Subject: [PATCH 14/52] fix: a reused shared memory message must not keep the
 location and state of its former buffer

---
 fairmq/shmem/Message.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 6dafc3a..2592d8b 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -273,9 +273,7 @@ class Message final : public fair::mq::Message
         }
 
         // if this msg is already initialized, close it first
-        if (fHandle >= 0) {
-            CloseMessage();
-        }
+        CloseMessage();
 
         // increment ref count
         if (otherMsg.fManaged) { // msg in managed segment
@@ -400,9 +398,15 @@ class Message final : public fair::mq::Message
                 }
             }
         }
-        fHandle = -1;
+        // forget everything about the former buffer (location, reference count, delivery)
+        fRegionPtr = nullptr;
         fLocalPtr = nullptr;
         fSize = 0;
+        fHandle = -1;
+        fShared = -1;
+        fSegmentId = fManager.GetSegmentId();
+        fManaged = true;
+        fQueued = false;
     }
 
     void ReleaseUnmanagedRegionBlock()
-- 
2.43.0


From 381cecbdf6480fd9af090eb5de7d5aec55a69693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 15/52] fix: resizing a message in an unmanaged region must not
 modify the managed segment

---
 fairmq/shmem/Message.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 2592d8b..8ca6bac 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -196,6 +196,11 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            if (!fManaged) {
+                // the block belongs to the creator of the region, who expects it back as a whole
+                LOG(error) << "cannot set used size of a message in an unmanaged region.";
+                return false;
+            }
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-- 
2.43.0


From 00014adc5b117a5888d24250ca26eafae99d787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 16/52] fix: resizing a copy must not shrink the shared memory
 buffer other messages use

---
 fairmq/shmem/Message.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 8ca6bac..d0944d2 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -201,6 +201,11 @@ class Message final : public fair::mq::Message
                 LOG(error) << "cannot set used size of a message in an unmanaged region.";
                 return false;
             }
+            if (GetRefCount() > 1) {
+                // others still use the whole buffer, reset only the size of this message
+                fSize = newSize;
+                return true;
+            }
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-- 
2.43.0


From 66c70f95e5599f9c34563a7c121332ef105bf949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 17/52] fix: release the user buffer of an empty shared memory
 message

---
 fairmq/shmem/Message.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index d0944d2..d7e0271 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -68,11 +68,12 @@ class Message final : public fair::mq::Message
     {
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        // the buffer is no longer needed (also if it is empty)
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
         fManager.IncrementMsgCounter();
     }
@@ -154,11 +155,12 @@ class Message final : public fair::mq::Message
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        // the buffer is no longer needed (also if it is empty)
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
     }
 
-- 
2.43.0


From dc8dd624488f9814f314097c4a96338b33660ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 18/52] fix: a message received into with an alignment keeps it
 for the next reception

---
 fairmq/zeromq/Message.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index 9dce38e..f16513e 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -246,7 +246,10 @@ class Message final : public fair::mq::Message
                 auto ptrs = AllocateAligned(size, fAlignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
                 // rebuild the message with the new buffer
+                // (keeping the requested alignment, it applies to further messages received into this one as well)
+                auto const alignment = fAlignment;
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
-- 
2.43.0


From 8e852874a9956eb2ab1fa704fc0a325f7c7f3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:13 +0000
Subject: [PATCH 19/52] fix: a region message may end after its region without
 ending the process

---
 fairmq/shmem/Manager.h |  3 +++
 fairmq/shmem/Message.h | 11 +++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..f41a08a 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -427,6 +427,9 @@ class Manager
         } catch (boost::interprocess::interprocess_exception& e) {
             LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
             return nullptr;
+        } catch (TransportError& e) {
+            LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
+            return nullptr;
         }
     }
 
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index d7e0271..ef959bd 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -387,9 +387,9 @@ class Message final : public fair::mq::Message
                 if (fShared >= 0) {
                     fRegionPtr = fManager.GetRegionFromCache(fRegionId);
                     if (!fRegionPtr) {
-                        throw TransportError(tools::ToString("Cannot get unmanaged region with id ", fRegionId));
-                    }
-                    if (fRegionPtr->fRcSegmentSize > 0) {
+                        // the region (and its reference counts) ended before this message, nobody is left to be told
+                        LOG(warn) << "unmanaged region with id " << fRegionId << " no longer exists. Not releasing the block";
+                    } else if (fRegionPtr->fRcSegmentSize > 0) {
                         uint16_t refCount = fRegionPtr->GetRefCountAddressFromHandle(fShared)->Decrement();
                         if (refCount == 1) {
                             fRegionPtr->RemoveRefCount(*(fRegionPtr->GetRefCountAddressFromHandle(fShared)));
@@ -423,9 +423,8 @@ class Message final : public fair::mq::Message
 
     void ReleaseUnmanagedRegionBlock()
     {
-        if (!fRegionPtr) {
-            fRegionPtr = fManager.GetRegionFromCache(fRegionId);
-        }
+        // always look it up, the region could have been destroyed since it was last used by this message
+        fRegionPtr = fManager.GetRegionFromCache(fRegionId);
 
         if (fRegionPtr) {
             fRegionPtr->ReleaseBlock({fHandle, fSize, fHint});
-- 
2.43.0


From 6b4a1e0f4d24a2a042329de48240f86d7059d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:08 +0000
Subject: [PATCH 20/52] fix: acks of a region's own messages must not get lost
 when it is destroyed

---
 fairmq/shmem/UnmanagedRegion.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index fb4da9a..33ac0fc 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -60,6 +60,7 @@ struct UnmanagedRegion
         , fRemoveOnDestruction(cfg.removeOnDestruction)
         , fLinger(cfg.linger)
         , fStopAcks(false)
+        , fStopAcksReceiver(false)
         , fName(MakeShmName(shmId, "rg", cfg.id.value()))
         , fQueueName(MakeShmName(shmId, "rgq", cfg.id.value()))
         , fRefCountSegmentName(MakeShmName(shmId, "rrc", cfg.id.value()))
@@ -207,18 +208,9 @@ struct UnmanagedRegion
     ~UnmanagedRegion()
     {
         LOG(debug) << "~UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
-        fStopAcks = true;
-
-        if (fAcksSender.joinable()) {
-            fBlockSendCV.notify_one();
-            fAcksSender.join();
-        }
+        StopAcks();
 
         if (fControlling) {
-            if (fAcksReceiver.joinable()) {
-                fAcksReceiver.join();
-            }
-
             if (fRemoveOnDestruction) {
                 if (Monitor::RemoveObject(fName.c_str())) {
                     LOG(trace) << "Region '" << fName << "' destroyed.";
@@ -256,6 +248,7 @@ struct UnmanagedRegion
     bool fRemoveOnDestruction;
     uint32_t fLinger;
     std::atomic<bool> fStopAcks;
+    std::atomic<bool> fStopAcksReceiver;
     std::string fName;
     std::string fQueueName;
     std::string fRefCountSegmentName;
@@ -360,7 +353,7 @@ struct UnmanagedRegion
                 std::unique_lock<std::mutex> lock(fBlockMtx);
 
                 // try to get <fAckBunchSize> blocks
-                if (fBlocksToFree.size() < fAckBunchSize) {
+                if (fBlocksToFree.size() < fAckBunchSize && !fStopAcks) {
                     fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500));
                 }
 
@@ -405,7 +398,7 @@ struct UnmanagedRegion
         while (true) {
             uint32_t timeout = 100;
             bool leave = false;
-            if (fStopAcks) {
+            if (fStopAcksReceiver) {
                 timeout = fLinger;
                 leave = true;
             }
@@ -449,13 +442,19 @@ struct UnmanagedRegion
 
     void StopAcks()
     {
-        fStopAcks = true;
+        {
+            std::lock_guard<std::mutex> lock(fBlockMtx);
+            fStopAcks = true;
+        }
 
         if (fAcksSender.joinable()) {
             fBlockSendCV.notify_one();
             fAcksSender.join();
         }
 
+        // only now, the acks of this region have to be received first
+        fStopAcksReceiver = true;
+
         if (fAcksReceiver.joinable()) {
             fAcksReceiver.join();
         }
-- 
2.43.0


From 6af99293c1d9f432a86962dccabb9703bddfa588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:06 +0000
Subject: [PATCH 21/52] fix: a message must not use the view of its region that
 another device in the process has

---
 fairmq/shmem/Manager.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index f41a08a..f41ddba 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -379,7 +379,7 @@ class Manager
 
         // fast path
         for (const auto &lRegion : lTlCacheVec) {
-            if ((std::get<1>(lRegion) == id) && (lTlCacheGen == fRegionsGen) && (std::get<2>(lRegion) == fShmId64)) {
+            if ((std::get<1>(lRegion) == id) && (lTlCacheGen == fRegionsGen) && (std::get<2>(lRegion) == this)) {
                 return std::get<0>(lRegion);
             }
         }
@@ -390,7 +390,7 @@ class Manager
         }
 
         auto* lRegion = GetRegion(id);
-        fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, fShmId64));
+        fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, this));
         fTlRegionCache.fRegionsTLCacheGen = fRegionsGen;
         return lRegion;
     }
@@ -814,7 +814,7 @@ class Manager
     inline static std::atomic<unsigned long> fRegionsGen = 0ul;
     inline static thread_local struct ManagerTLCache {
         unsigned long fRegionsTLCacheGen;
-        std::vector<std::tuple<UnmanagedRegion*, uint16_t, uint64_t>> fRegionsTLCache;
+        std::vector<std::tuple<UnmanagedRegion*, uint16_t, const Manager*>> fRegionsTLCache;
     } fTlRegionCache;
 
 #ifdef FAIRMQ_DEBUG_MODE
-- 
2.43.0


From dbf75dee116f43779fbc530b305da905d62533f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 22/52] fix: refuse messages that reach beyond their unmanaged
 region

---
 fairmq/shmem/Message.h  | 3 ++-
 fairmq/zeromq/Message.h | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index ef959bd..d43fe46 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -94,7 +94,8 @@ class Message final : public fair::mq::Message
         }
 
         if (reinterpret_cast<const char*>(data) >= reinterpret_cast<const char*>(region->GetData()) &&
-            reinterpret_cast<const char*>(data) <= reinterpret_cast<const char*>(region->GetData()) + region->GetSize()) {
+            reinterpret_cast<const char*>(data) <= reinterpret_cast<const char*>(region->GetData()) + region->GetSize() &&
+            size <= region->GetSize() - (reinterpret_cast<const char*>(data) - reinterpret_cast<const char*>(region->GetData()))) {
             fHandle = (boost::interprocess::managed_shared_memory::handle_t)(reinterpret_cast<const char*>(data) - reinterpret_cast<const char*>(region->GetData()));
         } else {
             LOG(error) << "trying to create region message with data from outside the region";
diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index f16513e..b7fcdf0 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -116,6 +116,13 @@ class Message final : public fair::mq::Message
             throw TransportError(tools::ToString("region type (", region->GetType(), ") does not match message type (", GetType(), ")"));
         }
 
+        const char* begin = static_cast<const char*>(region->GetData());
+        const char* ptrInRegion = static_cast<const char*>(data);
+        if (ptrInRegion < begin || ptrInRegion > begin + region->GetSize() || size > region->GetSize() - (ptrInRegion - begin)) {
+            LOG(error) << "trying to create region message with data from outside the region";
+            throw TransportError("trying to create region message with data from outside the region");
+        }
+
         // FIXME: make this zero-copy:
         // simply taking over the provided buffer can casue premature delete, since region could be
         // destroyed before the message is sent out. Needs lifetime extension for the ZMQ region.
-- 
2.43.0


From a1c9e608f650c5033a77434116884f5dbd9705cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:49 +0000
Subject: [PATCH 23/52] fix: register file-backed unmanaged regions

---
 fairmq/shmem/Monitor.cxx       |  2 +-
 fairmq/shmem/UnmanagedRegion.h | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index b996caa..6e61af5 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -676,7 +676,7 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
             }
             for (const auto& region : *shmRegions) {
                 uint16_t id = region.first;
-                RegionInfo info = region.second;
+                const RegionInfo& info = region.second; // no copies, the segment is mapped read-only
                 string path = info.fPath.c_str();
                 int flags = info.fCreationFlags;
                 if (verbose) {
diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 33ac0fc..206b486 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -151,8 +151,9 @@ struct UnmanagedRegion
 
         InitializeRefCountSegment(fRcSegmentSize);
 
-        if (fControlling && created) {
-            Register(shmId, cfg);
+        if (fControlling && (created || fFile)) {
+            // a file is always created anew, also if the region has been registered before
+            Register(shmId, cfg, fFile != nullptr);
         }
 
         LOG(debug) << (created ? "Created" : "Opened") << " unmanaged shared memory region: " << fName << " (" << (fControlling ? "controller" : "viewer") << "), refCount segment size: " << fRcSegmentSize;
@@ -278,7 +279,7 @@ struct UnmanagedRegion
         return regionCfg;
     }
 
-    static void Register(const std::string& shmId, const RegionConfig& cfg)
+    static void Register(const std::string& shmId, const RegionConfig& cfg, bool mayExist = false)
     {
         using namespace boost::interprocess;
         LOG(debug) << "Registering unmanaged shared memory region with id " << cfg.id.value();
@@ -291,6 +292,9 @@ struct UnmanagedRegion
 
         auto it = shmRegions->find(cfg.id.value());
         if (it != shmRegions->end()) {
+            if (mayExist && !it->second.fDestroyed) {
+                return;
+            }
             LOG(error) << "Unmanaged Region with id " << cfg.id.value() << " has already been registered. Only unique IDs per session are allowed.";
             throw TransportError(tools::ToString("Unmanaged Region with id ", cfg.id.value(), " has already been registered. Only unique IDs per session are allowed."));
         }
-- 
2.43.0


From c3b393895e6911a88beaf0c13ca8f80e4f0983c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 24/52] fix: unmanaged regions created at the same time must
 not get the same id (zeromq)

---
 fairmq/zeromq/Context.h         | 6 +++---
 fairmq/zeromq/UnmanagedRegion.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index a02b679..64a88ca 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -112,17 +112,17 @@ class Context
         return fRegionInfos;
     }
 
-    uint16_t RegionCount() const
+    // a new id with every call, regions can be created by several threads at a time
+    uint16_t NextRegionId()
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        return fRegionCounter;
+        return fRegionCounter++;
     }
 
     void AddRegion(bool managed, uint16_t id, void* ptr, size_t size, int64_t userFlags, RegionEvent event)
     {
         {
             std::lock_guard<std::mutex> lock(fMtx);
-            ++fRegionCounter;
             fRegionInfos.emplace_back(managed, id, ptr, size, userFlags, event);
             fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
         }
diff --git a/fairmq/zeromq/UnmanagedRegion.h b/fairmq/zeromq/UnmanagedRegion.h
index 41e518d..b73c059 100644
--- a/fairmq/zeromq/UnmanagedRegion.h
+++ b/fairmq/zeromq/UnmanagedRegion.h
@@ -38,7 +38,7 @@ class UnmanagedRegion final : public fair::mq::UnmanagedRegion
                     fair::mq::RegionConfig cfg)
         : fair::mq::UnmanagedRegion(factory)
         , fCtx(ctx)
-        , fId(fCtx.RegionCount())
+        , fId(fCtx.NextRegionId())
         , fBuffer(malloc(size))
         , fSize(size)
         , fUserFlags(userFlags)
-- 
2.43.0


From fb032c81abc12c33157fec6e800a938762117420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:08 +0000
Subject: [PATCH 25/52] fix: listing regions must survive that one is destroyed
 meanwhile

---
 fairmq/shmem/Manager.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index f41ddba..8ad7b9d 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -456,6 +456,7 @@ class Manager
     {
         std::vector<fair::mq::RegionInfo> result;
         std::map<uint64_t, RegionConfig> regionCfgs;
+        std::set<uint64_t> gone;
 
         {
             boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
@@ -510,10 +511,16 @@ class Manager
                     if (it != fRegions.end()) {
                         region = it->second.get();
                     } else {
-                        auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
-                        region = r.first->second.get();
-                        region->InitializeQueues();
-                        region->StartAckSender();
+                        try {
+                            auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
+                            region = r.first->second.get();
+                            region->InitializeQueues();
+                            region->StartAckSender();
+                        } catch (const std::exception& e) {
+                            LOG(debug) << "unmanaged region with id " << info.id << " was destroyed in the meantime: " << e.what();
+                            gone.insert(info.id);
+                            continue;
+                        }
                     }
 
                     info.ptr = region->GetData();
@@ -525,6 +532,9 @@ class Manager
             }
         }
 
+        // a region that was destroyed since it was listed will be found as destroyed next time
+        result.erase(std::remove_if(result.begin(), result.end(), [&gone](const fair::mq::RegionInfo& info) { return !info.managed && gone.count(info.id) > 0; }), result.end());
+
         return result;
     }
 
-- 
2.43.0


From b292f39a3e55f1e2ab28ea0d08dd1bf13861388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:11 +0000
Subject: [PATCH 26/52] fix: refuse the id of a destroyed region also if a view
 of it is left

---
 fairmq/shmem/Manager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 8ad7b9d..f90abc9 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -324,6 +324,12 @@ class Manager
 
                 const uint16_t id = cfg.id.value();
 
+                auto registered = fShmRegions->find(id);
+                if (registered != fShmRegions->end() && registered->second.fDestroyed) {
+                    LOG(error) << "Unmanaged Region with id " << id << " has already been registered and destroyed. Only unique IDs per session are allowed.";
+                    throw TransportError(tools::ToString("Unmanaged Region with id ", id, " has already been registered and destroyed. Only unique IDs per session are allowed."));
+                }
+
                 std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
 
                 UnmanagedRegion* region = nullptr;
-- 
2.43.0


From 9f6384c176805db16cf4028fd9d5fdfd76efed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:38 +0000
Subject: [PATCH 27/52] fix: region event callbacks may use the transport
 (zeromq)

---
 fairmq/zeromq/Context.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index 64a88ca..86e389a 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -99,8 +99,11 @@ class Context
         while (fRegionEventsSubscriptionActive) {
             while (!fRegionEvents.empty()) {
                 auto i = fRegionEvents.front();
-                fRegionEventCallback(i);
                 fRegionEvents.pop();
+                // the callback may use the transport (region info, new regions)
+                lock.unlock();
+                fRegionEventCallback(i);
+                lock.lock();
             }
             fRegionEventsCV.wait(lock, [&]() { return !fRegionEventsSubscriptionActive || !fRegionEvents.empty(); });
         }
-- 
2.43.0


From 947299af833aab955033e0970b3c8c574bb1d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:13 +0000
Subject: [PATCH 28/52] fix: looking up a region must not deadlock with
 creating or removing one

---
 fairmq/shmem/Manager.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index f90abc9..29b1450 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -403,18 +403,20 @@ class Manager
 
     UnmanagedRegion* GetRegion(uint16_t id)
     {
-        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-        auto it = fRegions.find(id);
-        if (it != fRegions.end()) {
-            return it->second.get();
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
         }
 
         try {
             RegionConfig cfg;
-            // get region info
+            // get region info. Not with fLocalRegionsMtx held: regions are created and removed with the locks taken in the opposite order.
             {
                 boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
-                RegionInfo regionInfo = fShmRegions->at(id);
+                const RegionInfo& regionInfo = fShmRegions->at(id);
                 cfg.id = id;
                 cfg.creationFlags = regionInfo.fCreationFlags;
                 cfg.rcSegmentSize = regionInfo.fRCSegmentSize;
@@ -422,6 +424,13 @@ class Manager
             }
             // LOG(debug) << "Located remote region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            // another thread could have been faster
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
+
             auto r = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, 0, false, std::move(cfg)));
             r.first->second->InitializeQueues();
             r.first->second->StartAckSender();
-- 
2.43.0


From 17ab7a052f4e91b2b27c62b0f763cccbb02c6421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 29/52] fix: region ack callbacks may use the transport while
 their region is destroyed

---
 fairmq/shmem/Manager.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 29b1450..599c43c 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -451,10 +451,16 @@ class Manager
     void RemoveRegion(uint16_t id)
     {
         try {
-            boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
-            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-            fRegions.at(id)->StopAcks();
+            UnmanagedRegion* region = nullptr;
             {
+                std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                region = fRegions.at(id).get();
+            }
+            // not with the locks held: the callbacks for the remaining acks may use the transport
+            region->StopAcks();
+            {
+                boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
+                std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
                 if (fRegions.at(id)->RemoveOnDestruction()) {
                     fShmRegions->at(id).fDestroyed = true;
                     (fEventCounter->fCount)++;
-- 
2.43.0


From 3955515d955aa78a685f832ca640c14be942a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 30/52] fix: count and report the size of message parts beyond
 2 GiB correctly (zeromq)

---
 fairmq/zeromq/Socket.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..ad0087c 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -172,9 +172,11 @@ class Socket final : public fair::mq::Socket
                 bool repeat = false;
 
                 for (unsigned int i = 0; i < vecSize; ++i) {
+                    // not the returned number of bytes, which is limited to the range of int
+                    const int64_t partSize = zmq_msg_size(static_cast<Message*>(msgVec[i].get())->GetMessage());
                     int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
                     if (nbytes >= 0) {
-                        totalSize += nbytes;
+                        totalSize += partSize;
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
@@ -225,8 +227,8 @@ class Socket final : public fair::mq::Socket
                 int nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
                 if (nbytes >= 0) {
                     static_cast<Message*>(part.get())->Realign();
+                    totalSize += zmq_msg_size(static_cast<Message*>(part.get())->GetMessage());
                     msgVec.push_back(std::move(part));
-                    totalSize += nbytes;
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-- 
2.43.0


From 17b56e17f0699bec8188303f52658411be042d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:13 +0000
Subject: [PATCH 31/52] fix: monitor sockets of sockets with the same id
 separately

Several sockets with the same id had the same monitor address, so that all but the first of them
counted the peers of others.
---
 fairmq/zeromq/Common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 51d009b..b8558df 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -11,6 +11,7 @@
 #include <fairlogger/Logger.h>
 #include <fairmq/Error.h>
 #include <fairmq/tools/Strings.h>
+#include <atomic>
 #include <stdexcept>
 #include <string_view>
 #include <zmq.h>
@@ -132,7 +133,9 @@ inline auto makeMonitorSocket(void* zmqCtx, void* socketToMonitor, std::string_v
         return nullptr;
     }
 
-    auto const address(tools::ToString("inproc://", id));
+    // Several sockets may have the same id, so make the address of the monitor unique
+    static std::atomic<unsigned long> counter(0);
+    auto const address(tools::ToString("inproc://", id, "-monitor-", ++counter));
     {   // Create writing monitor socket on socket to be monitored and subscribe
         // to all relevant events needed to compute connected peers
         // from http://api.zeromq.org/master:zmq-socket-monitor:
-- 
2.43.0


From d72cd68d8f7e9e81f751e19628a32b96f065e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:13 +0000
Subject: [PATCH 32/52] fix: closing a socket must not block the I/O thread of
 the transport

If the connection of a socket was established while it was being closed, the event for its monitor,
which nobody reads anymore, blocked the I/O thread (and with it all transfers) forever.
---
 fairmq/shmem/Socket.h  | 7 +++++++
 fairmq/zeromq/Socket.h | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2daa6fd..77ad296 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -319,6 +319,13 @@ class Socket final : public fair::mq::Socket
     {
         // LOG(debug) << "Closing socket " << fId;
 
+        // Stop the monitor first: its events would otherwise block the I/O thread of the context
+        // once nobody is there anymore to receive them.
+        if (fSocket && fMonitorSocket && zmq_socket_monitor(fSocket, nullptr, 0) != 0 && zmq_errno() != ETERM) {
+            LOG(error) << "Failed stopping monitor of socket " << fId
+                       << ", reason: " << zmq_strerror(errno);
+        }
+
         if (fSocket && zmq_close(fSocket) != 0) {
             LOG(error) << "Failed closing data socket " << fId
                        << ", reason: " << zmq_strerror(errno);
diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index ad0087c..910b876 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -263,6 +263,13 @@ class Socket final : public fair::mq::Socket
     {
         // LOG(debug) << "Closing socket " << fId;
 
+        // Stop the monitor first: its events would otherwise block the I/O thread of the context
+        // once nobody is there anymore to receive them.
+        if (fSocket && fMonitorSocket && zmq_socket_monitor(fSocket, nullptr, 0) != 0 && zmq_errno() != ETERM) {
+            LOG(error) << "Failed stopping monitor of socket " << fId
+                       << ", reason: " << zmq_strerror(errno);
+        }
+
         if (fSocket && zmq_close(fSocket) != 0) {
             LOG(error) << "Failed closing data socket " << fId
                        << ", reason: " << zmq_strerror(errno);
-- 
2.43.0


From b14c64ef21b76393554e3f89e1bb8ad400946c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:46 +0000
Subject: [PATCH 33/52] fix: refuse messages whose full size overflows (shmem)

A message of nearly SIZE_MAX bytes was created with a buffer of a few bytes.
---
 fairmq/shmem/Manager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 599c43c..29466ec 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -713,8 +713,9 @@ class Manager
         while (!ptr) {
             try {
                 size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(fSegmentId));
-                if (fullSize > segmentSize) {
-                    throw MessageBadAlloc(tools::ToString("Requested message size (", fullSize, ") exceeds segment size (", segmentSize, ")"));
+                // (the full size of a very large message does not fit into its type)
+                if (size > segmentSize || alignment > segmentSize || fullSize > segmentSize) {
+                    throw MessageBadAlloc(tools::ToString("Requested message size (", size, ") exceeds segment size (", segmentSize, ")"));
                 }
 
                 ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, fSegments.at(fSegmentId));
-- 
2.43.0


From e72b54f43b7b16f1cf7c0c1ec03a82629c9f7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 34/52] fix: an unmanaged region must be found by a cleanup
 also if its creation does not end

---
 fairmq/shmem/UnmanagedRegion.h | 72 ++++++++++++++++++++++++++++++----
 1 file changed, 65 insertions(+), 7 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 206b486..c42c4d1 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -78,6 +78,8 @@ struct UnmanagedRegion
         cfg.size = size;
         const uint16_t id = cfg.id.value();
         bool created = false;
+        // A region is registered before its objects are created, to be found by a cleanup whenever this process ends.
+        Registration registration;
 
         LOG(debug) << "UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
 
@@ -85,6 +87,8 @@ struct UnmanagedRegion
             fName = std::string(cfg.path + fName);
 
             if (fControlling) {
+                // a file is always created anew, also if the region has been registered before
+                registration.Enter(shmId, cfg, true);
                 // create a file
                 std::filebuf fbuf;
                 if (fbuf.open(fName, std::ios_base::in | std::ios_base::out | std::ios_base::trunc | std::ios_base::binary)) {
@@ -113,9 +117,11 @@ struct UnmanagedRegion
                 } catch (interprocess_exception& e) {
                     if (fControlling) {
                         LOG(debug) << "Could not open controlling shared_memory_object for region " << id << ": " << e.what() << ", creating...";
+                        registration.Enter(shmId, cfg, false);
                         fShmemObject = shared_memory_object(create_only, fName.c_str(), read_write);
-                        fShmemObject.truncate(size);
                         created = true;
+                        registration.AddObject(fName);
+                        fShmemObject.truncate(size);
                     } else {
                         LOG(error) << "Could not open view for shared_memory_object for region " << id << ": " << e.what();
                         throw TransportError(tools::ToString("Could not open view for shared_memory_object for region ", id, ": ", e.what()));
@@ -151,10 +157,7 @@ struct UnmanagedRegion
 
         InitializeRefCountSegment(fRcSegmentSize);
 
-        if (fControlling && (created || fFile)) {
-            // a file is always created anew, also if the region has been registered before
-            Register(shmId, cfg, fFile != nullptr);
-        }
+        registration.Keep();
 
         LOG(debug) << (created ? "Created" : "Opened") << " unmanaged shared memory region: " << fName << " (" << (fControlling ? "controller" : "viewer") << "), refCount segment size: " << fRcSegmentSize;
     }
@@ -279,7 +282,8 @@ struct UnmanagedRegion
         return regionCfg;
     }
 
-    static void Register(const std::string& shmId, const RegionConfig& cfg, bool mayExist = false)
+    // returns false if the region is registered already (and may be)
+    static bool Register(const std::string& shmId, const RegionConfig& cfg, bool mayExist = false)
     {
         using namespace boost::interprocess;
         LOG(debug) << "Registering unmanaged shared memory region with id " << cfg.id.value();
@@ -293,7 +297,7 @@ struct UnmanagedRegion
         auto it = shmRegions->find(cfg.id.value());
         if (it != shmRegions->end()) {
             if (mayExist && !it->second.fDestroyed) {
-                return;
+                return false;
             }
             LOG(error) << "Unmanaged Region with id " << cfg.id.value() << " has already been registered. Only unique IDs per session are allowed.";
             throw TransportError(tools::ToString("Unmanaged Region with id ", cfg.id.value(), " has already been registered. Only unique IDs per session are allowed."));
@@ -301,8 +305,62 @@ struct UnmanagedRegion
 
         shmRegions->emplace(cfg.id.value(), RegionInfo(cfg.path.c_str(), cfg.creationFlags, cfg.userFlags, cfg.size, cfg.rcSegmentSize, alloc));
         (eventCounter->fCount)++;
+        return true;
+    }
+
+    static void Unregister(const std::string& shmId, uint16_t id)
+    {
+        using namespace boost::interprocess;
+        managed_shared_memory mngSegment(open_only, MakeShmName(shmId, "mng").c_str());
+        Uint16RegionInfoHashMap* shmRegions = mngSegment.find<Uint16RegionInfoHashMap>(unique_instance).first;
+        EventCounter* eventCounter = mngSegment.find<EventCounter>(unique_instance).first;
+        if (shmRegions && shmRegions->erase(id) > 0 && eventCounter) {
+            (eventCounter->fCount)--;
+        }
     }
 
+    // takes back what has been done for a region that could not be created
+    struct Registration
+    {
+        Registration() = default;
+        Registration(const Registration&) = delete;
+        Registration& operator=(const Registration&) = delete;
+
+        void Enter(const std::string& shmId, const RegionConfig& cfg, bool mayExist)
+        {
+            if (Register(shmId, cfg, mayExist)) {
+                fShmId = shmId;
+                fId = cfg.id.value();
+                fEntered = true;
+            }
+        }
+        void AddObject(const std::string& name) { fObject = name; }
+        void Keep()
+        {
+            fEntered = false;
+            fObject.clear();
+        }
+        ~Registration()
+        {
+            if (!fObject.empty()) {
+                Monitor::RemoveObject(fObject);
+            }
+            if (fEntered) {
+                try {
+                    Unregister(fShmId, fId);
+                } catch (const std::exception& e) {
+                    LOG(error) << "Could not unregister unmanaged region with id " << fId << ": " << e.what();
+                }
+            }
+        }
+
+      private:
+        std::string fShmId;
+        std::string fObject;
+        uint16_t fId = 0;
+        bool fEntered = false;
+    };
+
     void SetCallbacks(RegionCallback callback, RegionBulkCallback bulkCallback)
     {
         fCallback = std::move(callback);
-- 
2.43.0


From b5f2aa2a33c48b7273676e553afda4030dbb17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 35/52] fix: clean up a management segment whose creation did
 not end

---
 fairmq/shmem/Monitor.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 6e61af5..029f616 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -711,6 +711,11 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
         if (verbose) {
             LOG(info) << "Did not find '" << managementSegmentName << "' management segment. No regions to cleanup.";
         }
+        // its creator may have ended before it was usable
+        auto removed = Remove<bipc::shared_memory_object>(managementSegmentName, verbose);
+        if (removed.second) {
+            result.emplace_back(std::move(removed));
+        }
     }
 
     return result;
-- 
2.43.0


From fa209f14c84201905375f8cd7f3880841f9b1975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 36/52] fix: do not leave a managed segment behind that could
 not be created

---
 fairmq/shmem/Manager.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 29466ec..3d51385 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -161,13 +161,20 @@ class Manager
                 std::string segmentName = MakeShmName(fShmId, "m", fSegmentId);
                 auto it = fShmSegments->find(fSegmentId);
                 if (it == fShmSegments->end()) {
-                    // no segment with given id exists, creating
-                    if (allocationAlgorithm == "rbtree_best_fit") {
-                        fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
-                        fShmSegments->emplace(fSegmentId, AllocationAlgorithm::rbtree_best_fit);
-                    } else if (allocationAlgorithm == "simple_seq_fit") {
-                        fSegments.emplace(fSegmentId, SimpleSeqFitSegment(open_or_create, segmentName.c_str(), size));
-                        fShmSegments->emplace(fSegmentId, AllocationAlgorithm::simple_seq_fit);
+                    // no segment with given id exists, creating. Registered first, to be found by a cleanup whenever this process ends.
+                    try {
+                        if (allocationAlgorithm == "rbtree_best_fit") {
+                            fShmSegments->emplace(fSegmentId, AllocationAlgorithm::rbtree_best_fit);
+                            fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
+                        } else if (allocationAlgorithm == "simple_seq_fit") {
+                            fShmSegments->emplace(fSegmentId, AllocationAlgorithm::simple_seq_fit);
+                            fSegments.emplace(fSegmentId, SimpleSeqFitSegment(open_or_create, segmentName.c_str(), size));
+                        }
+                    } catch (...) {
+                        // do not leave an unusable segment behind
+                        Monitor::RemoveObject(segmentName);
+                        fShmSegments->erase(fSegmentId);
+                        throw;
                     }
                     if (mlockSegmentOnCreation) {
                         MlockSegment(fSegmentId);
-- 
2.43.0


From 230b7c18e88c354d8a648ccc2b4eef44eb1fc5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 37/52] fix: a session must not be removed while a new device
 joins it

---
 fairmq/shmem/Common.h  |  4 +++
 fairmq/shmem/Manager.h | 56 ++++++++++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index d290886..ded700d 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -11,6 +11,7 @@
 #include <atomic>
 #include <string>
 #include <functional> // std::equal_to
+#include <limits>
 
 #include <boost/functional/hash.hpp>
 // #include <boost/interprocess/allocators/adaptive_pool.hpp>
@@ -225,6 +226,9 @@ struct DeviceCounter
         : fCount(c)
     {}
 
+    // value of the counter after the last user has removed the session
+    static constexpr unsigned int kRemoved = std::numeric_limits<unsigned int>::max();
+
     std::atomic<unsigned int> fCount;
 };
 
diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 3d51385..4287371 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -118,6 +118,8 @@ class Manager
             StartMonitor(fShmId);
         }
 
+        JoinSession();
+
         fHeartbeatThread = std::thread(&Manager::Heartbeats, this);
 
         try {
@@ -141,17 +143,6 @@ class Manager
                 LOG(trace) << "initialized event counter with: " << fEventCounter->fCount;
             }
 
-            fDeviceCounter = fManagementSegment.find<DeviceCounter>(unique_instance).first;
-            if (fDeviceCounter) {
-                LOG(trace) << "device counter found, with value of " << fDeviceCounter->fCount << ". incrementing.";
-                (fDeviceCounter->fCount)++;
-                LOG(trace) << "incremented device counter, now: " << fDeviceCounter->fCount;
-            } else {
-                LOG(trace) << "no device counter found, creating one and initializing with 1";
-                fDeviceCounter = fManagementSegment.construct<DeviceCounter>(unique_instance)(1);
-                LOG(trace) << "initialized device counter with: " << fDeviceCounter->fCount;
-            }
-
             fShmSegments = fManagementSegment.find_or_construct<Uint16SegmentInfoHashMap>(unique_instance)(fShmVoidAlloc);
             fShmRegions = fManagementSegment.find_or_construct<Uint16RegionInfoHashMap>(unique_instance)(fShmVoidAlloc);
 
@@ -789,11 +780,40 @@ class Manager
 
     uint16_t GetSegmentId() const { return fSegmentId; }
 
+    // Be counted as a user of the session
+    void JoinSession()
+    {
+        using namespace boost::interprocess;
+        while (true) {
+            {
+                boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
+
+                fDeviceCounter = fManagementSegment.find<DeviceCounter>(unique_instance).first;
+                if (!fDeviceCounter) {
+                    LOG(trace) << "no device counter found, creating one and initializing with 1";
+                    fDeviceCounter = fManagementSegment.construct<DeviceCounter>(unique_instance)(1);
+                    LOG(trace) << "initialized device counter with: " << fDeviceCounter->fCount;
+                    return;
+                }
+                if (fDeviceCounter->fCount != DeviceCounter::kRemoved) {
+                    LOG(trace) << "device counter found, with value of " << fDeviceCounter->fCount << ". incrementing.";
+                    (fDeviceCounter->fCount)++;
+                    LOG(trace) << "incremented device counter, now: " << fDeviceCounter->fCount;
+                    return;
+                }
+            }
+            // the last user has removed the session since its management segment was opened here
+            fManagementSegment = managed_shared_memory(open_or_create, MakeShmName(fShmId, "mng").c_str(), kManagementSegmentSize);
+            VoidAlloc alloc(fManagementSegment.get_segment_manager());
+            swap(fShmVoidAlloc, alloc);
+            fShmMtx = fManagementSegment.find_or_construct<interprocess_mutex>(unique_instance)();
+        }
+    }
+
     void CleanupIfLast()
     {
         using namespace boost::interprocess;
 
-        bool lastRemoved = false;
         try {
             boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
 
@@ -801,19 +821,17 @@ class Manager
 
             if (fDeviceCounter->fCount == 0) {
                 LOG(debug) << "Last segment user, " << (fNoCleanup ? "skipping removal (--shm-no-cleanup is true)." : "removing segment.");
-                lastRemoved = true;
+                if (!fNoCleanup) {
+                    // with the lock held, and then marked as removed for those who have the management segment open already
+                    Monitor::Cleanup(ShmId{fShmId});
+                    fDeviceCounter->fCount = DeviceCounter::kRemoved;
+                }
             } else {
                 LOG(debug) << "Other segment users present (" << fDeviceCounter->fCount << "), skipping removal.";
             }
         } catch (interprocess_exception& e) {
             LOG(error) << "Manager could not acquire lock: " << e.what();
         }
-
-        if (lastRemoved) {
-            if (!fNoCleanup) {
-                Monitor::Cleanup(ShmId{fShmId});
-            }
-        }
     }
 
     auto GetMetadataMsgSize() const noexcept { return fMetadataMsgSize; }
-- 
2.43.0


From 8e63097baa23c7d4d77f2a62f43d7736dc881b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:24 +0000
Subject: [PATCH 38/52] fix: forget the channels that are not yet attached when
 the device is reset

---
 fairmq/Device.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..59766d7 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -740,6 +740,8 @@ void Device::ResetWrapper()
 
     Reset();
 
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     if (!NewStatePending()) {
-- 
2.43.0


From 6d062a88ca379fa180c65808e2ab14e02e58e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:25 +0000
Subject: [PATCH 39/52] fix: wake up who waits for a device state when an
 exception ends the device

---
 fairmq/Device.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.h b/fairmq/Device.h
index de99a41..23d34b7 100644
--- a/fairmq/Device.h
+++ b/fairmq/Device.h
@@ -421,7 +421,15 @@ class Device
     void SetRawCmdLineArgs(const std::vector<std::string>& args) { fRawCmdLineArgs = args; }
     std::vector<std::string> GetRawCmdLineArgs() const { return fRawCmdLineArgs; }
 
-    void RunStateMachine() { fStateMachine.ProcessWork(); };
+    void RunStateMachine()
+    try {
+        fStateMachine.ProcessWork();
+    } catch (StateMachine::ErrorStateException const&) {
+        throw; // the error state has been handled and waiters know about it
+    } catch (...) {
+        fStateQueue.Push(State::Error); // an exception ends in the error state without it being handled
+        throw;
+    }
 
     /// Wait for the supplied amount of time or for interruption.
     /// If interrupted, returns false, otherwise true.
-- 
2.43.0


From 6abb57dd92db701cbc0bfd42cae0bc5d025ed05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:37 +0000
Subject: [PATCH 40/52] fix: tell of the error state without holding the lock
 of the state machine

---
 fairmq/StateMachine.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 06a6012..47a0016 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -404,9 +404,10 @@ void StateMachine::ProcessWork()
         {
             lock_guard<mutex> lock(fsm->fStateMtx);
             fsm->fState = State::Error;
-            fsm->CallStateChangeCallbacks(State::Error);
         }
         ChangeState(Transition::ErrorFound);
+        // not under the lock, the callbacks may use the state machine
+        fsm->CallStateChangeCallbacks(State::Error);
     });
 
     fsm->CallStateChangeCallbacks(State::Idle);
-- 
2.43.0


From 34db6773cf0653e57fef935b4dbe0aff29b4179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:37 +0000
Subject: [PATCH 41/52] fix: wake up all who wait for the release of device
 control

---
 fairmq/PluginServices.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginServices.cxx b/fairmq/PluginServices.cxx
index 44368c7..aa83e81 100644
--- a/fairmq/PluginServices.cxx
+++ b/fairmq/PluginServices.cxx
@@ -69,7 +69,7 @@ auto PluginServices::ReleaseDeviceControl(const string& controller) -> void
         }
     }
 
-    fReleaseDeviceControlCondition.notify_one();
+    fReleaseDeviceControlCondition.notify_all();
 }
 
 auto PluginServices::GetDeviceController() const -> boost::optional<string>
-- 
2.43.0


From 92f920058075e7f3237235fd276a746108ddfceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:24 +0000
Subject: [PATCH 42/52] fix: pass an exception of a data callback on also with
 several transports

---
 fairmq/Device.cxx | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 59766d7..89646f5 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -509,16 +510,32 @@ void Device::HandleMultipleChannelInput()
 void Device::HandleMultipleTransportInput()
 {
     vector<thread> threads;
+    exception_ptr failure = nullptr;
 
     fMultitransportProceed = true;
 
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        threads.emplace_back([this, &failure, factory = fTransports.at(i.first).get(), &channelKeys = i.second] {
+            try {
+                PollForTransport(factory, channelKeys);
+            } catch (...) {
+                // end the other threads, the exception is passed on once they are done
+                lock_guard<mutex> lock(fMultitransportMutex);
+                fMultitransportProceed = false;
+                if (!failure) {
+                    failure = current_exception();
+                }
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    if (failure) {
+        rethrow_exception(failure);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
-- 
2.43.0


From e1c89c887e891e44b1305e59de41564e52202387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:40 +0000
Subject: [PATCH 43/52] fix: let the benchmark sampler and the sink stop after
 the configured number of iterations

---
 fairmq/devices/BenchmarkSampler.h | 6 ++++--
 fairmq/devices/Sink.h             | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/fairmq/devices/BenchmarkSampler.h b/fairmq/devices/BenchmarkSampler.h
index da00ebb..56b0085 100644
--- a/fairmq/devices/BenchmarkSampler.h
+++ b/fairmq/devices/BenchmarkSampler.h
@@ -39,6 +39,8 @@ class BenchmarkSampler : public Device
         fMsgRate = fConfig->GetProperty<float>("msg-rate");
         fMaxIterations = fConfig->GetProperty<uint64_t>("max-iterations");
         fOutChannelName = fConfig->GetProperty<std::string>("out-channel");
+
+        fNumIterations = 0;
     }
 
     void Run() override
@@ -63,12 +65,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(parts) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             } else {
                 MessagePtr msg(dataOutChannel.NewMessage(fMsgSize, fair::mq::Alignment{fMsgAlignment}));
@@ -77,12 +79,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(msg) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             }
 
diff --git a/fairmq/devices/Sink.h b/fairmq/devices/Sink.h
index c10ce55..8b65ef2 100644
--- a/fairmq/devices/Sink.h
+++ b/fairmq/devices/Sink.h
@@ -41,6 +41,7 @@ class Sink : public Device
         fInChannelName = fConfig->GetProperty<std::string>("in-channel");
         fOutFilename   = fConfig->GetProperty<std::string>("out-filename");
 
+        fNumIterations = 0;
         fBytesWritten = 0;
     }
 
@@ -88,6 +89,8 @@ class Sink : public Device
                 }
             }
 
+            fNumIterations++;
+
             if (fMaxFileSize > 0 && fBytesWritten >= fMaxFileSize) {
                 LOG(info) << "Written " << fBytesWritten << " bytes, stopping...";
                 break;
@@ -98,7 +101,6 @@ class Sink : public Device
                     break;
                 }
             }
-            fNumIterations++;
         }
 
         if (fOutputFile.is_open()) {
-- 
2.43.0


From 9ae6ba2490fc066408d2064f08992eaf1914c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:50 +0000
Subject: [PATCH 44/52] fix: let the multiplier copy a message with the
 transport it came with

---
 fairmq/devices/Multiplier.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/devices/Multiplier.h b/fairmq/devices/Multiplier.h
index 49eb582..1dcbdb3 100644
--- a/fairmq/devices/Multiplier.h
+++ b/fairmq/devices/Multiplier.h
@@ -44,7 +44,7 @@ class Multiplier : public Device
     {
         for (unsigned int i = 0; i < fOutChannelNames.size() - 1; ++i) { // all except last channel
             for (unsigned int j = 0; j < GetNumSubChannels(fOutChannelNames.at(i)); ++j) { // all subChannels in a channel
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
                 msgCopy->Copy(*payload);
 
                 Send(msgCopy, fOutChannelNames.at(i), j);
@@ -54,7 +54,7 @@ class Multiplier : public Device
         unsigned int lastChannelSize = GetNumSubChannels(fOutChannelNames.back());
 
         for (unsigned int i = 0; i < lastChannelSize - 1; ++i) { // iterate over all except last subChannels of the last channel
-            MessagePtr msgCopy(fTransportFactory->CreateMessage());
+            MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
             msgCopy->Copy(*payload);
 
             Send(msgCopy, fOutChannelNames.back(), i);
@@ -72,7 +72,7 @@ class Multiplier : public Device
                 Parts parts;
 
                 for (unsigned int k = 0; k < payload.Size(); ++k) {
-                    MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                    MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage());
                     msgCopy->Copy(*(payload.At(k)));
                     parts.AddPart(std::move(msgCopy));
                 }
@@ -87,7 +87,7 @@ class Multiplier : public Device
             Parts parts;
 
             for (unsigned int k = 0; k < payload.Size(); ++k) {
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage());
                 msgCopy->Copy(*(payload.At(k)));
                 parts.AddPart(std::move(msgCopy));
             }
-- 
2.43.0


From 90d0f0bced74c6a26770411775a27c90609eba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:29 +0000
Subject: [PATCH 45/52] fix: do not bind to a random port if the port range is
 invalid

---
 fairmq/Channel.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/Channel.cxx b/fairmq/Channel.cxx
index e01a197..5f83114 100644
--- a/fairmq/Channel.cxx
+++ b/fairmq/Channel.cxx
@@ -356,6 +356,11 @@ bool Channel::BindEndpoint(string& endpoint)
         }
 
         if (fAutoBind) {
+            if (fPortRangeMin < 1 || fPortRangeMin > fPortRangeMax || fPortRangeMax > 65535) {
+                LOG(error) << "cannot choose a random (TCP) port, invalid range: " << fPortRangeMin << "-" << fPortRangeMax;
+                return false;
+            }
+
             // number of attempts when choosing a random port
             int numAttempts = 0;
             int maxAttempts = 1000;
-- 
2.43.0


From 57d9c351d381ef7079c3ba9894aea73f69814e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:56 +0000
Subject: [PATCH 46/52] fix: put the address a channel is bound to into the
 configuration also if none was specified

---
 fairmq/Device.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 89646f5..ccc0ede 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -359,11 +359,14 @@ bool Device::AttachChannel(Channel& chan)
 
     // put the (possibly) modified address back in the channel object and config
     string newAddress(boost::algorithm::join(endpoints, ","));
+    string configPrefix{"chans." + chan.GetPrefix() + "." + chan.GetIndex() + "."};
+    bool configured = !fConfig->GetPropertiesStartingWith(configPrefix).empty();
     if (newAddress != chanAddress) {
         chan.UpdateAddress(newAddress);
-
-        // update address in the config, it could have been modified during binding
-        fConfig->SetProperty({"chans." + chan.GetPrefix() + "." + chan.GetIndex() + ".address"}, newAddress);
+    }
+    // update address in the config, it could have been modified during binding, or not be specified there
+    if (newAddress != chanAddress || (configured && fConfig->GetProperty<string>(configPrefix + "address", "") != newAddress)) {
+        fConfig->SetProperty(configPrefix + "address", newAddress);
     }
 
     return true;
-- 
2.43.0


From eeef54211153845caa83d650bf17c757f94ee4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:59 +0000
Subject: [PATCH 47/52] fix: report a plugin that cannot be loaded also when it
 is asked for again

---
 fairmq/PluginManager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/PluginManager.h b/fairmq/PluginManager.h
index 6ce4882..9b5b522 100644
--- a/fairmq/PluginManager.h
+++ b/fairmq/PluginManager.h
@@ -124,7 +124,7 @@ class PluginManager
 #endif
         fgDLLKeepAlive.push_back(lib);
 
-        fPluginFactories[pluginName] = import_alias<PluginFactory>(
+        auto factory = import_alias<PluginFactory>(
             shared_library{lib},
             ToString("make_", pluginName, "_plugin")
         );
@@ -137,6 +137,8 @@ class PluginManager
             });
         }
         catch (const boost::bad_optional_access& e) { /* just ignore, if no prog options are declared */ }
+
+        fPluginFactories[pluginName] = std::move(factory); // only now, the above may throw
     }
 
     auto InstantiatePlugin(const std::string& pluginName) -> void;
-- 
2.43.0


From 13b7730689f0177227e75f17449c3675c17413f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:59 +0000
Subject: [PATCH 48/52] fix: load a builtin plugin once only, and a dynamic one
 of the same name from its file

---
 fairmq/PluginManager.cxx | 13 +++++++------
 fairmq/PluginManager.h   |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/fairmq/PluginManager.cxx b/fairmq/PluginManager.cxx
index 8a528f0..8137b83 100644
--- a/fairmq/PluginManager.cxx
+++ b/fairmq/PluginManager.cxx
@@ -155,7 +155,7 @@ auto fair::mq::PluginManager::LoadPlugin(const string& pluginName) -> void
 auto fair::mq::PluginManager::LoadPluginPrelinkedDynamic(const string& pluginName) -> void
 {
     // Load symbol
-    if (fPluginFactories.find(pluginName) == fPluginFactories.end()) {
+    if (!IsLoaded(pluginName)) {
         try {
             LoadSymbols(pluginName, dll::program_location());
             fPluginOrder.push_back(pluginName);
@@ -191,7 +191,7 @@ auto fair::mq::PluginManager::SearchPluginFile(const string& pluginName) const
 
 auto fair::mq::PluginManager::LoadPluginDynamic(const string& pluginName) -> void
 {
-    if (fPluginFactories.find(pluginName) != fPluginFactories.end()) {
+    if (IsLoaded(pluginName)) {
         return;   // already loaded, nothing to do
     }
 
@@ -235,7 +235,7 @@ auto fair::mq::PluginManager::LoadPluginDynamic(const string& pluginName) -> voi
 auto fair::mq::PluginManager::LoadPluginStatic(const string& pluginName) -> void
 {
     // Load symbol
-    if (fPluginFactories.find(pluginName) == fPluginFactories.end()) {
+    if (!IsLoaded(pluginName)) {
         try {
             if ("control" == pluginName) {
                 try {
@@ -265,12 +265,13 @@ auto fair::mq::PluginManager::LoadPluginStatic(const string& pluginName) -> void
 auto fair::mq::PluginManager::InstantiatePlugin(const string& pluginName) -> void
 {
     if (fPlugins.find(pluginName) == fPlugins.end()) {
-        if ("control" == pluginName) {
+        auto const factory = fPluginFactories.find(pluginName);
+        if (factory != fPluginFactories.end()) {
+            fPlugins[pluginName] = factory->second(*fPluginServices);
+        } else if ("control" == pluginName) {
             fPlugins[pluginName] = plugins::Make_control_Plugin(fPluginServices.get());
         } else if ("config" == pluginName) {
             fPlugins[pluginName] = plugins::Make_config_Plugin(fPluginServices.get());
-        } else {
-            fPlugins[pluginName] = fPluginFactories[pluginName](*fPluginServices);
         }
     }
 }
diff --git a/fairmq/PluginManager.h b/fairmq/PluginManager.h
index 9b5b522..b2c42d1 100644
--- a/fairmq/PluginManager.h
+++ b/fairmq/PluginManager.h
@@ -29,6 +29,7 @@ namespace fs = ::boost::filesystem;
 #include <boost/dll/shared_library.hpp>
 #include <boost/dll/runtime_symbol_info.hpp>
 
+#include <algorithm>
 #include <functional>
 #include <map>
 #include <memory>
@@ -97,6 +98,7 @@ class PluginManager
   private:
     static auto ValidateSearchPath(const fs::path&) -> void;
 
+    auto IsLoaded(const std::string& pluginName) const -> bool { return std::find(fPluginOrder.begin(), fPluginOrder.end(), pluginName) != fPluginOrder.end(); }
     auto LoadPluginPrelinkedDynamic(const std::string& pluginName) -> void;
     auto LoadPluginDynamic(const std::string& pluginName) -> void;
     auto LoadPluginStatic(const std::string& pluginName) -> void;
-- 
2.43.0


From 4e0931c09573621dcf83bcc459dcc9b5fd3cd370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:42 +0000
Subject: [PATCH 49/52] fix: let the interactive controller see every command,
 and the end of the input

---
 fairmq/plugins/control/Control.cxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 7788253..a14578b 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -11,6 +11,8 @@
 #include <fairmq/tools/IO.h>
 
 #include <atomic>
+#include <cctype>
+#include <cerrno>
 #include <chrono>
 #include <csignal> // catching system signals
 #include <cstdlib>
@@ -19,6 +21,7 @@
 #include <thread>
 
 #include <poll.h> // for the interactive mode
+#include <unistd.h>
 
 using namespace std;
 
@@ -172,12 +175,19 @@ auto Control::RunREPL() -> void
     bool keepRunning = true;
 
     while (keepRunning) {
-        if (poll(cinfd, 1, 100)) {
+        if (poll(cinfd, 1, 100) > 0) {
             if (fDeviceShutdownRequested) {
                 break;
             }
 
-            cin >> input;
+            // read it directly, what a stream would keep in its buffer is not seen by poll
+            const auto size = read(cinfd[0].fd, &input, 1);
+            if (size == 0 || (size < 0 && errno != EINTR && errno != EAGAIN)) {
+                cinfd[0].fd = -1; // end of input, poll ignores it from now on
+            }
+            if (size != 1 || isspace(static_cast<unsigned char>(input))) {
+                continue;
+            }
 
             switch (input) {
                 case 'c':
-- 
2.43.0


From 8646a88a512d91d06da72ae2a7901cc21b44f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:11 +0000
Subject: [PATCH 50/52] fix: end the control plugin also if the device never
 ran

---
 fairmq/plugins/control/Control.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index a14578b..3107789 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -508,7 +508,9 @@ auto Control::RunShutdownSequence() -> void
                 break;
         }
 
-        nextState = fStateQueue.WaitForNext();
+        const auto next = fStateQueue.WaitForNextOrCustom([this]{ return fPluginShutdownRequested.load(); });
+        if (!next.first) { break; }
+        nextState = next.second;
     }
 
     fDeviceHasShutdown = true;
@@ -517,8 +519,11 @@ auto Control::RunShutdownSequence() -> void
 
 Control::~Control()
 {
-    // Notify threads to exit
-    fPluginShutdownRequested = true;
+    // Notify threads to exit, also if they wait for a state of a device that never ran
+    fStateQueue.Notify([this] {
+        fPluginShutdownRequested = true;
+        fDeviceShutdownRequested = true;
+    });
 
     {
         unique_lock<mutex> lock(fControllerMutex);
-- 
2.43.0


From 57efa003bc089deb400f15a805e3bd2310700028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:17 +0000
Subject: [PATCH 51/52] fix: do not fail if a device is stopped at the moment
 it ends running by itself

---
 fairmq/Device.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ccc0ede..d56c2cc 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -426,8 +426,9 @@ void Device::RunWrapper()
     }
 
     // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Stop);
+    // (the transition is refused if a controller requests it at the same time, which is fine)
+    if (!NewStatePending() && !ChangeState(Transition::Stop) && !NewStatePending()) {
+        throw runtime_error(tools::ToString("Cannot leave the state ", GetCurrentStateName()));
     }
 
     PostRun();
-- 
2.43.0


From 4e00982fe692610d5a625c462853169fd02ea7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:30 +0000
Subject: [PATCH 52/52] fix: do not lose a state when the control plugin starts
 the shutdown

---
 fairmq/plugins/control/Control.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 3107789..7a29094 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -480,10 +480,11 @@ auto Control::SignalHandler() -> void
 
 auto Control::RunShutdownSequence() -> void
 {
-    auto nextState = GetCurrentDeviceState();
-    if (nextState != DeviceState::Error) {
+    // drop old states first, those reached after asking for the current one must not be lost
+    if (GetCurrentDeviceState() != DeviceState::Error) {
         fStateQueue.Clear();
     }
+    auto nextState = GetCurrentDeviceState();
     while (nextState != DeviceState::Exiting && nextState != DeviceState::Error) {
         switch (nextState) {
             case DeviceState::Idle:
-- 
2.43.0

