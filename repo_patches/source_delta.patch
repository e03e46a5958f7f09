From 7021398bcdc83600fef2618843d9bfbf84a39c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 01/12] fix: don't leak the commit lock when an exclusive BEGIN
 is refused

beginTransaction took commitLock before checking for a leftover transaction, so
a handle that already held the lock ended up holding it twice and released it
once. And when BEGIN itself failed, the lock and the open transaction count were
kept although rollback() ignores a handle that isn't inside a transaction.
---
 sqlitecluster/SQLite.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 4b4585b..0fda40a 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -518,19 +518,6 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 {
     _lastTransactionType = type;
     _transactionTimer.start("BEGIN_TRANSACTION");
-    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
-        if (isSyncThread) {
-            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
-            if (!_sharedData.commitLock.try_lock_for(5s)) {
-                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
-                STHROW("512 Internal Lock Timeout");
-            }
-        } else {
-            _sharedData.commitLock.lock();
-        }
-        _sharedData._commitLockTimer.start("EXCLUSIVE");
-        _mutexLocked = true;
-    }
 
     // The most likely case for hitting this is that we forgot to roll back a transaction when we were finished with it
     // during the last use of this DB handle. In that case, `_insideTransaction` is likely true, and possibly
@@ -550,6 +537,22 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
         STHROW("Attempted to begin transaction while in invalid state: _uncommittedQuery not empty");
     }
 
+    // We only take the commit lock once we know this handle is clean. `rollback` releases it a single time, so locking it
+    // on top of a lock that a leftover transaction already holds would leak it.
+    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
+        if (isSyncThread) {
+            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
+            if (!_sharedData.commitLock.try_lock_for(5s)) {
+                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
+                STHROW("512 Internal Lock Timeout");
+            }
+        } else {
+            _sharedData.commitLock.lock();
+        }
+        _sharedData._commitLockTimer.start("EXCLUSIVE");
+        _mutexLocked = true;
+    }
+
     // We actively track transaction counts incrementing and decrementing to log the number of active open transactions at any given moment.
     _sharedData.openTransactionCount++;
 
@@ -560,6 +563,15 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 
     string beginQuery = (beginOnly && _hctree) ? "BEGIN" : "BEGIN CONCURRENT";
     _insideTransaction = !SQuery(_db, beginQuery);
+    if (!_insideTransaction) {
+        // There is no transaction, and `rollback` does nothing outside of one, so we need to undo this ourselves.
+        _sharedData.openTransactionCount--;
+        if (_mutexLocked) {
+            _mutexLocked = false;
+            _sharedData._commitLockTimer.stop();
+            _sharedData.commitLock.unlock();
+        }
+    }
 
     _queryCache.clear();
     _tablesUsed.clear();
-- 
2.43.0


From 753353b194a67ce497373075d55e3fefc358fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 02/12] fix: don't leak the commit lock when the slow HC-Tree
 commit diagnostics time out

After a slow commit, read() could throw timeout_error (or the abort exception)
between clearing _insideTransaction and unlocking commitLock, after which
nothing ever unlocked it.
---
 sqlitecluster/SQLite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 0fda40a..eb0eec1 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1179,7 +1179,8 @@ int SQLite::commit(const string& description, const string& commandName, functio
         // Only check for commits over 100ms.
         if (_commitElapsed > 100'000 && _hctree) {
             SQResult stats;
-            if (read("SELECT * FROM hctstats", stats)) {
+            // Not `read`, which throws if this handle's timeout has passed, and we still need to release the lock.
+            if (!SQuery(_db, "SELECT * FROM hctstats", stats)) {
                 for (const auto& row : stats) {
                     SINFO("slow HC-Tree commit", {{"hctstats", SComposeList(row)}});
                 }
-- 
2.43.0


From ed5e87effce085291f8c7e49528081dce658316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 03/12] fix: don't cache reads that use randomblob() or the
 clock

The query cache skips queries that call a non-deterministic function, but the
list missed randomblob, unixepoch, timediff, current_date/time/timestamp and
total_changes, so reading e.g. "SELECT randomblob(16)" twice in a transaction
returned the same value.
---
 sqlitecluster/SQLite.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index eb0eec1..4e73693 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1460,12 +1460,19 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
     // Here's where we can check for non-deterministic functions for the cache.
     if (actionCode == SQLITE_FUNCTION && detail2) {
         if (!strcmp(detail2, "random") ||
+            !strcmp(detail2, "randomblob") ||
             !strcmp(detail2, "date") ||
             !strcmp(detail2, "time") ||
             !strcmp(detail2, "datetime") ||
             !strcmp(detail2, "julianday") ||
+            !strcmp(detail2, "unixepoch") ||
             !strcmp(detail2, "strftime") ||
+            !strcmp(detail2, "timediff") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
+            !strcmp(detail2, "current_timestamp") ||
             !strcmp(detail2, "changes") ||
+            !strcmp(detail2, "total_changes") ||
             !strcmp(detail2, "last_insert_rowid") ||
             !strcmp(detail2, "sqlite_version")
         ) {
-- 
2.43.0


From b46e30f8dcaca4267c98781e7fc88fb595b54707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 04/12] fix: don't re-run a stale rewritten query when a write
 is denied for another reason

---
 sqlitecluster/SQLite.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 4e73693..cb90237 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -893,8 +893,10 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     {
         shared_lock<shared_mutex> lock(_sharedData.writeLock);
         if (_enableRewrite) {
+            _rewrittenQuery.clear();
             resultCode = SQuery(_db, query, result, 2'000'000, true, nullptr, params, &expandedSql);
-            if (resultCode == SQLITE_AUTH) {
+            // A query can also be denied for other reasons than being rewritten, and then there's nothing to run instead.
+            if (resultCode == SQLITE_AUTH && !_rewrittenQuery.empty()) {
                 // Run re-written query. The rewrite is expected to preserve placeholder names so the
                 // same bound params bind to it as well. Discard the failed original's partial expansion
                 // and capture the rewritten form instead.
-- 
2.43.0


From 8d1bd5ba8883f420f0224e0368a6eea2e701e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 05/12] fix: roll back the open transaction when synchronizing
 a commit fails

---
 sqlitecluster/SQLiteNode.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 94f674c..1efdc82 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1794,22 +1794,29 @@ void SQLiteNode::_recvSynchronize(SQLitePeer* peer, const SData& message)
         if (!_db.beginTransaction()) {
             STHROW("failed to begin transaction");
         }
-        if (!_db.writeUnmodified(BedrockPlugin_Compression::decompress(commit.content))) {
-            STHROW("failed to write transaction");
-        }
-        string newHash;
-        if (!_db.prepare(nullptr, &newHash)) {
-            STHROW("failed to prepare transaction");
-        }
-        if (newHash != commit["Hash"]) {
+        try {
+            if (!_db.writeUnmodified(BedrockPlugin_Compression::decompress(commit.content))) {
+                STHROW("failed to write transaction");
+            }
+            string newHash;
+            if (!_db.prepare(nullptr, &newHash)) {
+                STHROW("failed to prepare transaction");
+            }
+            if (newHash != commit["Hash"]) {
+                STHROW("potential hash mismatch");
+            }
+
+            // Transaction succeeded, commit and go to the next
+            SDEBUG("Committing current transaction because _recvSynchronize: " << _db.getUncommittedQuery());
+            if (_db.commit(stateName(_state)) != SQLITE_OK) {
+                STHROW("failed to commit transaction");
+            }
+        } catch (...) {
+            // Don't leave a transaction we couldn't finish open, it would hold the commit lock forever.
             _db.rollback();
-            STHROW("potential hash mismatch");
+            throw;
         }
 
-        // Transaction succeeded, commit and go to the next
-        SDEBUG("Committing current transaction because _recvSynchronize: " << _db.getUncommittedQuery());
-        _db.commit(stateName(_state));
-
         --commitsRemaining;
     }
 
-- 
2.43.0


From d528033be38c792ecc57a05512e48816ff703f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 06/12] fix: drop the timeout entries of abandoned commands

---
 BedrockCommandQueue.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/BedrockCommandQueue.cpp b/BedrockCommandQueue.cpp
index a64016b..ba0186d 100644
--- a/BedrockCommandQueue.cpp
+++ b/BedrockCommandQueue.cpp
@@ -140,11 +140,22 @@ void BedrockCommandQueue::abandonFutureCommands(int msInFuture)
     // Lock around changes to the queue.
     unique_lock<decltype(_queueMutex)> queueLock(_queueMutex);
 
+    size_t numberErased = 0;
     auto it = _queue.lower_bound(timeLimit);
-    size_t numberToErase = distance(it, _queue.end());
-    if (numberToErase) {
-        _queue.erase(it, _queue.end());
-        SINFO("Erased " << numberToErase << " commands scheduled more than " << msInFuture << "ms in the future.");
+    while (it != _queue.end()) {
+        // Remove the matching entry from the timeout map.
+        auto matchingTimeoutIterators = _lookupByTimeout.equal_range(it->second.timeout);
+        for (auto timeoutIt = matchingTimeoutIterators.first; timeoutIt != matchingTimeoutIterators.second; timeoutIt++) {
+            if (timeoutIt->second == it->first) {
+                _lookupByTimeout.erase(timeoutIt);
+                break;
+            }
+        }
+        it = _queue.erase(it);
+        numberErased++;
+    }
+    if (numberErased) {
+        SINFO("Erased " << numberErased << " commands scheduled more than " << msInFuture << "ms in the future.");
     }
 }
 
-- 
2.43.0


From 85d82a7834ed1ceafe726f744d6e06aae102183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 07/12] fix: never run a command again that was committed or
 may have run on another node

A command whose commit succeeded was run again when the node stopped leading
right after the commit. A command whose response was lost after the leader had
received it was sent to another peer as well if versions differed, and a command
that already had its response was forwarded while synchronizing.
---
 BedrockServer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 26d9ed1..db135fa 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -563,7 +563,8 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
         if (command->escalateImmediately && _clusterMessengerCopy && _clusterMessengerCopy->runOnPeer(*command, true)) {
             // command->complete is now true for this command. It will get handled a few lines below.
             SINFO("Immediately escalated " << command->request.methodLine << " to leader.");
-        } else if (_version != _leaderVersion.load() && _clusterMessengerCopy && _clusterMessengerCopy->runOnPeer(*command, false)) {
+        } else if (!command->complete && _version != _leaderVersion.load() && _clusterMessengerCopy && _clusterMessengerCopy->runOnPeer(*command, false)) {
+            // Note that we don't try another peer if the leader may have run this command already, in which case it's marked as complete, with an error.
             SINFO("Escalated " << command->request.methodLine << " to follower peer.");
         } else {
             SINFO("Couldn't escalate command " << command->request.methodLine << " to " << (command->escalateImmediately ? "leader" : "follower peer") << ", queuing it again.");
@@ -574,9 +575,10 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
 
     // If we happen to be synchronizing but the command port is open, which is an uncommon but possible scenario (i.e., we were momentarily disconnected from leader and need to catch back
     // up), we will forward commands to any other follower similar to if we were running as a different version from leader.
-    if (getState() == SQLiteNodeState::SYNCHRONIZING) {
+    // As above, a command that's already complete has its response, and must not be run again.
+    if (getState() == SQLiteNodeState::SYNCHRONIZING && !command->complete) {
         auto _clusterMessengerCopy = _clusterMessenger;
-        bool result = _clusterMessengerCopy->runOnPeer(*command, false);
+        bool result = _clusterMessengerCopy && _clusterMessengerCopy->runOnPeer(*command, false);
         if (result) {
             SINFO("Synchronizing while accepting commands; successfully forwarded the command to peer", {{"command", command->request.methodLine}});
         } else {
@@ -778,7 +780,8 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                             }
                             commitSuccess = core.commit(*_syncNode, transactionID, transactionHash, command->getMethodName(), enableOnPrepareNotifications, onPrepareHandler, timeToCommit, &command->shouldAbort);
 
-                            if (getState() != SQLiteNodeState::LEADING) {
+                            // If the commit went through, the command is done, no matter what state we're in now, and must not be run again.
+                            if (!commitSuccess && getState() != SQLiteNodeState::LEADING) {
                                 SINFO("Stopped leading while trying to commit, will retry.");
 
                                 // Jump back to the top of the main loop but skip the check that would push this to the blocking commit queue.
-- 
2.43.0


From fc9d81a9031e02f9e958352da8863cfc623e2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 08/12] fix: clear the port-blocked flag when _resetServer
 drops leftover port blocks

The flag stayed set after a detach and attach, so every request on the public
port was answered with Connection: close although no block was in force.
---
 BedrockServer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index db135fa..c98ffb7 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -999,6 +999,7 @@ void BedrockServer::_resetServer()
     if (_commandPortBlockReasons.size()) {
         SWARN("Clearing leftover command port blocks in resetServer (" << _commandPortBlockReasons.size() << " blocks remaining).");
         _commandPortBlockReasons.clear();
+        _isCommandPortLikelyBlocked = false;
     }
     _syncLoopShouldBeRunning = true;
     atomic_store(&_syncNode, shared_ptr<SQLiteNode>(nullptr));
-- 
2.43.0


From 70c343fec4b96330c3da9ddea90e141ba067447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:35 +0000
Subject: [PATCH 09/12] fix: tell a joining node of crash commands that a
 plugin would refuse

onNodeLogin rebuilt each known crash command through the plugins. A plugin
that refuses a command carrying only the identifying values made it an empty
command, so the joining node was sent a fingerprint without name or values.
---
 BedrockServer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index c98ffb7..a281965 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2047,7 +2047,8 @@ void BedrockServer::onNodeLogin(SQLitePeer* peer)
             SALERT("Sending crash command " << p.first << " to node " << peer->name << " on login");
             SData crashCommandSpec(p.first);
             crashCommandSpec.nameValueMap = table;
-            unique_ptr<BedrockCommand> crashCommand = getCommandFromPlugins(move(crashCommandSpec));
+            // Don't build this with a plugin: one that refuses a command with only these values would lose them.
+            unique_ptr<BedrockCommand> crashCommand = make_unique<BedrockCommand>(SQLiteCommand(move(crashCommandSpec)), nullptr);
             for (const auto& fields : table) {
                 crashCommand->crashIdentifyingValues.insert(fields.first);
             }
-- 
2.43.0


From 682a8013f6669373abf1d83560192f7873339bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:50 +0000
Subject: [PATCH 10/12] fix: refuse priorities that don't fit an int in
 SetPriority

SetPriority read a 64 bit number and passed it to SQLiteNode::setPriority as
an int, so 4294967296 quietly made the node a permafollower (priority 0) while
reporting the larger number as its new priority.
---
 BedrockServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index a281965..21e73bc 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1874,8 +1874,8 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
         } else {
             int64_t newPriority = command->request.calc64("priority");
             auto _syncNodeCopy = atomic_load(&_syncNode);
-            // Priority 1 is reserved for shutdown.
-            if (newPriority < 0 || newPriority == 1) {
+            // Priority 1 is reserved for shutdown. Priorities are `int`s, so anything larger would be set to something else.
+            if (newPriority < 0 || newPriority == 1 || newPriority > numeric_limits<int>::max()) {
                 response.methodLine = "400 Invalid priority";
             } else if (!_syncNodeCopy) {
                 response.methodLine = "500 No sync node";
-- 
2.43.0


From a88d115a3df88c7c705abf55f6186b42383f4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 11/12] fix: lift the block for missing socket threads with the
 count this thread left

handleSocket decremented _outstandingSocketThreads and then read it again to
see whether it had reached 50. When two connections end together both reads can
skip that value, so the NOT_ENOUGH_THREADS block on the command port is never
lifted. Use the value the decrement returned, which is hit exactly once.
---
 BedrockServer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 21e73bc..c88aaa2 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2440,8 +2440,10 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
 
     // At this point out socket is closed and we can clean up.
     // Note that we never return early, we always want to hit this code and decrement our counter and clean up our socket.
-    _outstandingSocketThreads--;
-    SINFO("[performance] Socket thread complete (" << _outstandingSocketThreads << " remaining).");
+    // Several connections can end at the same time, so remember the count this one left behind: reading
+    // `_outstandingSocketThreads` again could skip a value.
+    const uint64_t remainingSocketThreads = --_outstandingSocketThreads;
+    SINFO("[performance] Socket thread complete (" << remainingSocketThreads << " remaining).");
 
     // Check to see if we need to unblock creating new socket threads. We do this each time we cross having 50 active
     // threads. We are guaranteed to hit this as the thread count decrements to 0, as _shouldBlockNewSocketThreads is
@@ -2449,7 +2451,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
     // Note that if we were to start blocking the command port for NOT_ENOUGH_THREADS with less than 50 threads, we
     // will never hit this unlock case, but we only ever see this problem with thousands of threads, so we don't have
     // to try and handle that case, and don't need to lock this mutex on every thread's completion then.
-    if (_outstandingSocketThreads == 50) {
+    if (remainingSocketThreads == 50) {
         lock_guard<mutex> lock(_newSocketThreadBlockedMutex);
         if (_shouldBlockNewSocketThreads) {
             _shouldBlockNewSocketThreads = false;
-- 
2.43.0


From 611044144980fdfacf616ceef8cf88b3e460eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:47 +0000
Subject: [PATCH 12/12] fix: accepting connections when no thread can be
 started

When a socket thread could not be started, _acceptSockets blocked the command
port while holding _portMutex, which blockCommandPort locks too, so the sync
thread hung. Had it not, it would have retried with a socket that had already
been moved into (and closed with) the thread that failed, and used a port that
was just closed. Count the lost connection off, release _portMutex, block the
port and accept further connections on the next pass.
---
 BedrockServer.cpp | 72 ++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index c88aaa2..5abaa3c 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2084,7 +2084,7 @@ void BedrockServer::_acceptSockets()
 
         // Lock _portMutex so suppressing the port does not cause it to be null
         // in the middle of this function.
-        lock_guard<mutex> lock(_portMutex);
+        unique_lock<mutex> lock(_portMutex);
 
         for (auto& p : _portPluginMap) {
             portList.push_back(reference_wrapper<const unique_ptr<Port>>(p.first));
@@ -2134,41 +2134,43 @@ void BedrockServer::_acceptSockets()
                 // And start up this socket's thread.
                 _outstandingSocketThreads++;
                 thread t;
-                bool threadStarted = false;
-                while (!threadStarted) {
-                    try {
-                        t = thread(&BedrockServer::handleSocket, this, move(socket), port == _controlPort, port == _commandPortPublic, port == _commandPortPrivate);
-                        threadStarted = true;
-                    } catch (const system_error& e) {
-                        // We don't care about this lock here from a performance perspective, it only happens when we
-                        // are unable to do any work anyway (i.e., we can't start threads).
-                        lock_guard<mutex> lock(_newSocketThreadBlockedMutex);
-                        if (_outstandingSocketThreads < 100) {
-                            // We don't expect this to ever happen - we only seem to get `system_error` here when we
-                            // have lots (thousands) of threads running. Because of this, our handling of this in
-                            // `handleSocket` only works correctly if this happens with greater than 50 threads, and if
-                            // we were to block new threads with less than 50 threads already running, we'd never
-                            // unblock new threads. Instead, if that happens, we throw this error and crash (which was
-                            // the behavior we saw here before handling `system_error`).
-                            // We check for 100 threads here instead of the 50 we check for in `handleSocket` to
-                            // minimize the risk of race conditions pushing this number through `50` (either up or
-                            // down) as we're checking this. For such a race condition to happen here, we'd need to
-                            // increment/decrement all the way from 50-100 (or vice versa) to hit such a race condition,
-                            // which is theoretically possible but exceedingly unlikely.
-                            SERROR("Got system_error creating thread with only " << _outstandingSocketThreads << " threads!");
-                        }
-                        if (!_shouldBlockNewSocketThreads) {
-                            // Block any new socket threads and warn.
-                            _shouldBlockNewSocketThreads = true;
-                            SWARN("Caught system_error in thread constructor (with " << _outstandingSocketThreads
-                                  << " threads): " << e.code() << ", message: " << e.what() << ", blocking new socket threads.");
-                            blockCommandPort("NOT_ENOUGH_THREADS");
-                        }
-
-                        // We just loop until socket threads are unblocked.
-                        SINFO("Waiting 1 more second for socket threads to be available.");
-                        sleep(1);
+                try {
+                    t = thread(&BedrockServer::handleSocket, this, move(socket), port == _controlPort, port == _commandPortPublic, port == _commandPortPrivate);
+                } catch (const system_error& e) {
+                    // The socket was moved into the thread that couldn't start, and was closed with it.
+                    _outstandingSocketThreads--;
+
+                    // `blockCommandPort` needs this lock, and `handleSocket` unblocks the port while holding
+                    // `_newSocketThreadBlockedMutex`, so we need to release it first.
+                    lock.unlock();
+
+                    // We don't care about this lock here from a performance perspective, it only happens when we
+                    // are unable to do any work anyway (i.e., we can't start threads).
+                    lock_guard<mutex> blockedLock(_newSocketThreadBlockedMutex);
+                    if (_outstandingSocketThreads < 100) {
+                        // We don't expect this to ever happen - we only seem to get `system_error` here when we
+                        // have lots (thousands) of threads running. Because of this, our handling of this in
+                        // `handleSocket` only works correctly if this happens with greater than 50 threads, and if
+                        // we were to block new threads with less than 50 threads already running, we'd never
+                        // unblock new threads. Instead, if that happens, we throw this error and crash (which was
+                        // the behavior we saw here before handling `system_error`).
+                        // We check for 100 threads here instead of the 50 we check for in `handleSocket` to
+                        // minimize the risk of race conditions pushing this number through `50` (either up or
+                        // down) as we're checking this. For such a race condition to happen here, we'd need to
+                        // increment/decrement all the way from 50-100 (or vice versa) to hit such a race condition,
+                        // which is theoretically possible but exceedingly unlikely.
+                        SERROR("Got system_error creating thread with only " << _outstandingSocketThreads << " threads!");
+                    }
+                    if (!_shouldBlockNewSocketThreads) {
+                        // Block any new socket threads and warn.
+                        _shouldBlockNewSocketThreads = true;
+                        SWARN("Caught system_error in thread constructor (with " << _outstandingSocketThreads
+                              << " threads): " << e.code() << ", message: " << e.what() << ", blocking new socket threads.");
+                        blockCommandPort("NOT_ENOUGH_THREADS");
                     }
+
+                    // The ports may have changed while we didn't hold the lock. We'll accept more sockets next time.
+                    return;
                 }
                 try {
                     t.detach();
-- 
2.43.0

