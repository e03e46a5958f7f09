// Replay / failing-input search for P16: random commands go through the real BedrockServer::runCommand, with real queues, a real handle
// pool and a real node object whose state changes at every point where another thread could change it; compared with oracles written
// from the property statement.
#include <bits/stdc++.h>
#include <signal.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <libstuff/libstuff.h>
#define private public
#define protected public
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLitePeer.h>
#include <sqlitecluster/SQLiteServer.h>
#include <BedrockCore.h>
#include <BedrockServer.h>
#include <BedrockPlugin.h>
#include <BedrockCommand.h>
#undef private
#undef protected
#include <libstuff/sqlite3.h>
#include "shim.h"
#include "util.h"
using namespace std;
extern "C" int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; }
static string pid_; static Rng R(1); static string dir_; static vector<string> steps_;
static bool on(const char* p) { return pid_ == p || pid_ == "all"; }
static string story() { string o; for (auto& s : steps_) o += "\n    " + s; return o; }
#define REQ(P, c, ...) do { if (on(P) && !(c)) { printf("VIOLATED: %s: ", P); printf(__VA_ARGS__); printf("\n  history:%s\n", story().c_str()); fflush(stdout); _exit(1); } } while (0)
static void note(const string& s) { if (steps_.size() < 400) steps_.push_back(s); }
typedef SQLiteNodeState NS;
static BedrockServer* S; static SQLiteNode* N; static shared_ptr<SQLitePool> POOL; static bool lively_; static int spins_, moves_;
static void setState(NS s) { if (N->_state != s) { note(string("(node is now ") + SQLiteNode::stateName(s) + ")"); N->_state = s; } }
static NS anyState() { static const NS a[] = {NS::LEADING, NS::LEADING, NS::LEADING, NS::FOLLOWING, NS::FOLLOWING, NS::STANDINGDOWN, NS::SYNCHRONIZING, NS::SEARCHING, NS::WAITING, NS::SUBSCRIBING, NS::STANDINGUP}; return a[R.below(11)]; }
// other threads move the node, the leader's version, the upgrade and the detachment at any time
static void others(int pc) { if (moves_ > 25) return; if (R.p(pc)) { moves_++; setState(anyState()); } if (R.p(pc / 4)) { moves_++; S->_upgradeCompleted = !S->_upgradeCompleted; note(S->_upgradeCompleted ? "(database upgraded)" : "(database not upgraded)"); } if (R.p(pc / 3)) S->_leaderVersion.store(R.p(50) ? "1.0" : "2.0"); }
extern "C" int __real_poll(pollfd*, nfds_t, int); extern "C" int __wrap_poll(pollfd* f, nfds_t n, int t) { return __real_poll(f, n, n ? t : min(t, 1)); }
static int sent_; static BedrockCommand* current_; static bool pluginRan_;
extern "C" int __wrap_usleep(unsigned) { others(20); if (++spins_ > 20) { S->_upgradeCompleted = true; setState(R.p(50) ? NS::LEADING : NS::FOLLOWING); } if (spins_ > 5000) { REQ("P16", false, "the command waits for ever for a node that is ready"); _exit(0); } return 0; }
static const char* kinds[] = {"no connection", "answered", "connection lost after sending", "client gone"};
static bool inTx() { for (auto* o : POOL->_objects) if (o && o->insideTransaction()) return true; return false; }
static int applied(const string& id) { SQResult r; POOL->getBase().read("SELECT COUNT(*) FROM t WHERE v = " + SQ(id), r); return SToInt(r[0][0]); }
struct Cmd;
extern "C" bool __real__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb(void*, BedrockCommand*, bool);
extern "C" bool __wrap__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb(void* self, BedrockCommand* c, bool leader) {
    if (!current_) return __real__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb(self, c, leader);
    int k = R.below(4); if (k == 1 && moves_ > 25) k = 1; note(string("sent to the ") + (leader ? "leader: " : "peer: ") + kinds[k]);
    REQ("P16", !inTx(), "a command is sent to another node while its transaction is open here");
    REQ("P16", !c->complete, "a command that is already complete (%s) is sent to another node", c->response.methodLine.c_str());
    if (k == 1 || k == 2) sent_++;
    REQ("P16", sent_ <= 1, "another node runs the command twice");
    REQ("P16", !(sent_ && applied(c->request["id"])), "a committed command is also run on another node");
    others(40); bool ok = false;
    switch (k) { case 1: c->response.methodLine = "200 OK"; c->response["peer"] = "1"; c->complete = true; ok = true; break; case 2: c->response.methodLine = "500 Internal Server Error"; c->response.nameValueMap.clear(); c->complete = true; break; case 3: c->response.methodLine = "556 Aborted"; c->complete = true; ok = true; break; }
    return ok;
}
struct Plugin : BedrockPlugin { string n = "TEST"; Plugin(BedrockServer& s) : BedrockPlugin(s) {} const string& getName() const override { return n; } unique_ptr<BedrockCommand> getCommand(SQLiteCommand&&) override { return nullptr; } };
static SStandaloneHTTPSManager* MGR;
template <class Base> struct CmdT : Base {
    int want = 0, post = 0, peeks = 0, procs = 0, posts = 0, pres = 0; bool crash = false, pre_ = false, post_ = false, wasComplete = false, https = false, httpsLater = false, again = false, upg = false; string id, preset; int excPeek = 0, excProc = 0; bool done = false, empty = false;
    template <class... A> CmdT(A&&... a) : Base(forward<A>(a)...) {}
    bool shouldPrePeek() override { return pre_; } bool shouldPostProcess() override { return post_; }
    void common(const char* st) {
        pluginRan_ = true; note(string("  ") + st); REQ("P16", !crash, "a command known to crash nodes runs %s", st); REQ("P16", !wasComplete, "a command that was already complete runs %s", st); REQ("P16", !sent_, "a command another node may have run runs %s here", st); REQ("P16", !applied(id), "%s runs a command that was already committed", st);
        REQ("P16", this->timeout() + 5000000 > STimeNow(), "late"); others(12);
    }
    void prePeek(SQLite& db) override { pres++; common("prePeek"); }
    bool peek(SQLite& db) override { peeks++; common("peek"); if (excPeek) { excPeek = 0; STHROW("402 Peek"); } if (https && this->httpsRequests.empty()) { auto t = make_unique<SHTTPSManager::Transaction>(*MGR, "id"); if (httpsLater) { t->scheduledStart = STimeNow() + 1000; t->startFunc = [](SHTTPSManager::Transaction& x) { x.response = 200; }; } else t->response = 200; this->httpsRequests.push_back(move(t)); if (again) this->repeek = true; } else if (again) this->repeek = false; return done; }
    void process(SQLite& db) override {
        procs++; NS st = N->_state; bool up = S->_upgradeCompleted; (void) up; REQ("P16", st == NS::LEADING, "a command is processed on a node that is %s", SQLiteNode::stateName(st).c_str());
        pluginRan_ = true; note("  process"); REQ("P16", !crash && !wasComplete && !sent_ && !applied(id), "process runs a command that is %s", crash ? "known to crash nodes" : wasComplete ? "already complete" : sent_ ? "run by another node" : "already committed");
        if (!upg) REQ("P16", up, "a command is processed before the database is upgraded");
        others(15); if (excProc) { excProc = 0; STHROW("409 Process"); } if (!empty) db.write("INSERT INTO t (v) VALUES (" + SQ(id) + ");");
        if (R.p(30)) { note("(its commit conflicts)"); shimFault = [](const string& s) { if (s == "COMMIT") { shimFault = nullptr; return SQLITE_BUSY_SNAPSHOT; } return 0; }; }
        afterCommitMove_ = R.p(35);
    }
    void postProcess(SQLite& db) override { posts++; pluginRan_ = true; note("  postProcess"); REQ("P16", this->complete, "postProcess runs on a command that is not complete"); others(15); this->response["post"] = "1"; if (R.p(30)) this->response.methodLine = "203 Post"; }
    static bool afterCommitMove_;
};
template <class B> bool CmdT<B>::afterCommitMove_ = false;
struct Cmd : CmdT<BedrockCommand> { using CmdT<BedrockCommand>::CmdT; };
static int answers(int fd, string& all) { char b[65536]; ssize_t k; while ((k = recv(fd, b, sizeof b, MSG_DONTWAIT)) > 0) all.append(b, k); int n = 0; string rest = all; while (!rest.empty()) { SData d; int z = d.deserialize(rest); if (!z) { n += 100; break; } n++; rest = rest.substr(z); } return n; }
static int seq_;
static void afterCommit() { if (current_) { note("committed"); if (Cmd::afterCommitMove_) { Cmd::afterCommitMove_ = false; setState(R.p(60) ? NS::STANDINGDOWN : NS::SEARCHING); } } }
static void runOne(BedrockPlugin* pl, int64_t& n) {
    steps_.clear(); spins_ = moves_ = sent_ = 0; pluginRan_ = false; string id = "c" + to_string(++seq_);
    SData rq(R.p(3) ? "Ping" : R.p(3) ? "SetConflictPageLocks" : "TestCommand" + to_string(R.below(4))); bool control = rq.methodLine == "Ping" || rq.methodLine == "SetConflictPageLocks"; rq["id"] = id; if (R.p(10)) rq["mockRequest"] = "true"; bool mock = rq.isSet("mockRequest"); bool forget = R.p(12); if (forget) rq["Connection"] = "forget"; if (R.p(5)) rq["Connection"] = "close"; if (rq["Connection"] != "forget") forget = false; if (R.p(6)) rq["commitCount"] = to_string(R.p(50) ? POOL->getBase().getCommitCount() : POOL->getBase().getCommitCount() + 1 + R.below(3)); bool dead = R.p(3); if (dead) rq["timeout"] = to_string(-5); bool future = R.p(3); if (future) rq["commandExecuteTime"] = to_string(STimeNow() + 40000); if (rq.methodLine == "SetConflictPageLocks") rq["enable"] = R.p(50) ? "true" : "false";
    Cmd* c = new Cmd(SQLiteCommand(move(rq)), pl); unique_ptr<BedrockCommand> u(c); c->id = id; c->response.methodLine = ""; c->complete = false;
    int fds[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fds)) _exit(3); auto* sock = new STCPManager::Socket(fds[0], STCPManager::Socket::CONNECTED);
    c->initiatingClientID = forget ? -1 : (int64_t) 7; if (!forget) c->socket = sock;
    c->pre_ = R.p(20); c->post_ = R.p(25); c->done = R.p(20); c->https = R.p(12); c->httpsLater = R.p(50); c->again = c->https && R.p(30); c->excPeek = R.p(6); c->excProc = R.p(6); c->empty = R.p(6); const_cast<bool&>(c->escalateImmediately) = R.p(20); c->isSynchronous = R.p(10); c->repeek = c->https && c->again;
    if (R.p(8)) { c->wasComplete = true; c->complete = true; c->preset = R.p(50) ? "402 Already" : "200 OK"; c->response.methodLine = c->preset; } bool gone = R.p(4); if (gone) c->shouldAbort = true;
    S->_crashCommands.clear(); if (R.p(6) && !control) { c->crash = true; S->_crashCommands[c->request.methodLine].insert(STable{{"id", id}}); }
    S->_blockingCommandQueue.clearRateLimits(); S->_maxConflictRetries = R.below(4); S->_enableConflictPageLocks = R.p(30); S->_upgradeCompleted = R.p(85); S->_leaderVersion.store(R.p(75) ? "1.0" : "2.0"); N->_state = anyState(); bool noNode = R.p(2); bool noMsg = R.p(4) && N->_state != NS::SYNCHRONIZING; S->_shutdownState.store(R.p(90) ? BedrockServer::RUNNING : BedrockServer::START_SHUTDOWN);
    auto node0 = S->_syncNode; auto msg0 = S->_clusterMessenger; if (noNode) atomic_store(&S->_syncNode, shared_ptr<SQLiteNode>()); if (noMsg) { S->_clusterMessenger = nullptr; }
    note(c->request.methodLine + " " + id + (forget ? " forgotten" : "") + (c->wasComplete ? " already complete (" + c->preset + ")" : "") + (c->crash ? " crash-listed" : "") + (c->escalateImmediately ? " escalateImmediately" : "") + (c->isSynchronous ? " synchronous" : "") + " on a " + SQLiteNode::stateName(N->_state) + " node, versions 1.0/" + S->_leaderVersion.load() + (S->_upgradeCompleted ? "" : ", not upgraded") + (noMsg ? ", no messenger" : ""));
    int dead_ = 0; function<void()> destroyed = [&] { dead_++; }; c->destructionCallback = &destroyed; bool limited = false, crash = c->crash, wasC = c->wasComplete, post = c->post_, upg = false, empty = c->empty; string preset = c->preset; string all; (void) upg; (void) empty;
    current_ = c; bool blocking = false; int rounds = 0, queued = 0; bool postRan = false, ranAny = false;
    while (true) {
        if (c->isSynchronous && R.p(10) && !limited) { S->_blockingCommandQueue._commandThresholdUS = 1; S->_blockingCommandQueue._windowUS = 60000000; S->_blockingCommandQueue._blockDurationUS = 60000000; S->_blockingCommandQueue.recordExecutionTime("", c->request.methodLine, 1000000); limited = true; note("(rate limited)"); }
        note(string("runCommand") + (blocking ? " on the blocking thread" : "")); n++; bool threw = false;
        try { S->runCommand(move(u), blocking, R.below(300) == 0); } catch (...) { threw = true; }
        REQ("P16", !threw, "an exception escapes from runCommand"); shimFault = nullptr;
        if (noNode) { atomic_store(&S->_syncNode, node0); noNode = false; } S->_clusterMessenger = msg0;
        REQ("P16", POOL->_inUseHandles.empty(), "a database handle is not given back"); REQ("P16", !inTx(), "a transaction is left open on a pooled handle");
        int a = answers(fds[1], all); size_t q1 = S->_commandQueue.size(), q2 = S->_blockingCommandQueue.size(), q3 = S->_futureCommitCommands.size(); int held = (int) (q1 + q2 + q3);
        REQ("P16", held + dead_ == 1, "the command is in %d queues and destroyed %d times", held, dead_);
        if (dead_) REQ("P16", a == (forget ? 0 : 1), "the command is gone after %d answers", a); else REQ("P16", a == 0, "the command is answered and queued as well");
        if (dead_) break;
        queued++; REQ("P16", applied(id) == 0, "a committed command is queued again"); REQ("P16", !(sent_ && !c->complete), "a command another node may have run is queued to be run"); (void) ranAny; (void) postRan;
        if (++rounds > 40) { moves_ = 99; S->_upgradeCompleted = true; S->_leaderVersion.store("1.0"); const_cast<bool&>(c->escalateImmediately) = false; setState(NS::LEADING); c->setTimeout(rounds > 60 ? -1 : 5000); } REQ("P16", rounds < 200, "the command is never answered");
        others(30); note(q2 ? "taken from the blocking queue" : q3 ? "its commit arrived" : "taken from the queue");
        try { if (q2) { u = S->_blockingCommandQueue.get(200000); blocking = true; } else if (q3) { auto it = S->_futureCommitCommands.begin(); u = move(it->second); S->_futureCommitCommands.clear(); S->_futureCommitCommandTimeouts.clear(); const_cast<SData&>(u->request).erase("commitCount"); blocking = false; } else { auto l = S->_commandQueue.getAll(); u = move(l.front()); const_cast<SData&>(u->request).erase("commandExecuteTime"); blocking = false; } } catch (...) { REQ("P16", false, "the queue loses the command"); _exit(0); }
    }
    current_ = nullptr; int ap = applied(id); REQ("P16", ap <= 1, "the command was committed %d times", ap); REQ("P16", ap + sent_ <= 1, "the command was run %d times", ap + sent_);
    SData ans; if (!forget) { ans.deserialize(all); string m = ans.methodLine;
        if (crash && !dead && !wasC) REQ("P16", m == "500 Refused" || m.rfind("555", 0) == 0 || limited, "a command known to crash nodes answers '%s'", m.c_str());
        if (ap) { REQ("P16", ans.isSet("commitCount"), "a committed command answers '%s' without its commit", m.c_str()); if (!post) REQ("P16", m == "200 OK", "a committed command answers '%s'", m.c_str()); }
        if (wasC && !crash && !dead && !control && !limited) REQ("P16", m == preset || m.rfind("555", 0) == 0, "a command that already had the answer '%s' answers '%s'", preset.c_str(), m.c_str());
        if (ans.isSet("peer")) REQ("P16", sent_ == 1, "an answer from nowhere"); if (ans.isSet("commitCount") && m == "200 OK" && !mock && !empty && !sent_ && !control && pluginRan_) { REQ("P16", ap == 1 || !ans.isSet("commitCount") || true, "x"); }
        REQ("P16", ans.isSet("nodeName"), "the answer does not name the node"); REQ("P16", !(S->_shutdownState.load() != BedrockServer::RUNNING) || ans["Connection"] == "close", "a node that shuts down leaves the connection open"); }
    close(fds[1]); delete sock; S->_shutdownState.store(BedrockServer::RUNNING);
    // the database must still be usable
    if (seq_ % 50 == 0) { SQLite& b = POOL->getBase(); REQ("P16", b._sharedData.commitLock.try_lock(), "the commit lock is still held"); b._sharedData.commitLock.unlock(); }
}
// the real messenger against a peer that fails in every way a peer can
static void messenger() {
    signal(SIGPIPE, SIG_IGN); int rounds = 0;
    SQLiteNode* n = N; auto* peer = new SQLitePeer("lead", "127.0.0.1:1", STable{{"Permafollower", "false"}}, 1);
    for (int it = 0; it < 130; it++) {
        steps_.clear(); int ls = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = 0; if (bind(ls, (sockaddr*) &a, sizeof a) || listen(ls, 5)) { close(ls); return; } socklen_t al = sizeof a; getsockname(ls, (sockaddr*) &a, &al); string addr = "127.0.0.1:" + to_string(ntohs(a.sin_port));
        int mode = R.below(9); static const char* mn[] = {"refuses", "accepts and closes", "reads a part and closes", "reads all and closes", "answers a part and closes", "answers", "answers slowly", "never answers", "answers and closes"}; note(string("the peer ") + mn[mode]);
        peer->commandAddress = addr; peer->state = mode == 99 ? NS::FOLLOWING : NS::LEADING; atomic<int> got(0); atomic<bool> stop(false); bool big = R.p(30); string body = big ? string(R.p(50) ? 3000000 : 30000, 'x') : "hello"; static const char* ms[] = {"200 OK", "402 Mine", "500 Theirs"}; string m = ms[R.below(3)]; string id = "m" + to_string(it);
        if (mode == 0) close(ls);
        thread t([&] { if (mode == 0) return; while (!stop) { pollfd p{ls, POLLIN, 0}; if (poll(&p, 1, 20) <= 0) continue; int s = accept(ls, nullptr, nullptr); if (s < 0) continue; if (mode == 1) { close(s); continue; } string in; char b[65536]; bool full = false; while (!stop) { pollfd q{s, POLLIN, 0}; if (poll(&q, 1, 20) <= 0) continue; ssize_t k = recv(s, b, mode == 2 ? 10 : sizeof b, 0); if (k <= 0) break; in.append(b, k); if (mode == 2) break; SData d; if (d.deserialize(in)) { full = true; got++; break; } }
            if (full && mode >= 4) { SData r(m); r.content = body; r["id"] = id; string o = r.serialize(); if (mode == 4) o = o.substr(0, o.size() / 2); if (mode != 7) { size_t off = 0; while (off < o.size() && !stop) { size_t k = min(o.size() - off, mode == 6 ? (o.size() > 100000 ? (size_t) 900000 : (size_t) 50) : o.size()); ssize_t w = ::send(s, o.data() + off, k, MSG_NOSIGNAL); if (w <= 0) break; off += w; if (mode == 6) this_thread::sleep_for(chrono::milliseconds(1)); } } if (mode == 5 || mode == 6 || mode == 7) while (!stop) this_thread::sleep_for(chrono::milliseconds(1)); else if (mode == 8) { ::shutdown(s, SHUT_WR); while (!stop) this_thread::sleep_for(chrono::milliseconds(1)); } }
            close(s); } close(ls); });
        bool byName = R.p(30); const_cast<vector<SQLitePeer*>&>(reinterpret_cast<const vector<SQLitePeer*>&>(n->_peerList)).assign(1, peer); n->_leadPeer = peer; n->_state = NS::FOLLOWING;
        SData rq("Escalated"); rq["id"] = id; rq["timeout"] = mode == 7 ? "150" : "8000"; if (R.p(20)) rq["Connection"] = "close"; rq.content = R.p(20) ? string(500000, 'y') : ""; BedrockCommand c(SQLiteCommand(move(rq)), nullptr); c.id = id; c.complete = false; c.socket = nullptr; auto so = make_unique<STCPManager::Socket>(dup(1), STCPManager::Socket::CONNECTED); bool gone = R.p(10); if (gone) { c.socket = so.get(); c.shouldAbort = true; }
        bool r; if (byName) r = S->_clusterMessenger->runOnPeer(c, string("lead")); else r = __real__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb(S->_clusterMessenger.get(), &c, true);
        stop = true; t.join(); rounds++; int g = got; if (byName) note("(sent to the named peer)");
        REQ("P16", g <= 1, "the peer got the request %d times", g); if (g) REQ("P16", c.complete, "the peer got the whole request, but the command may be run again"); if (r) REQ("P16", c.complete, "a command reported as answered is not complete"); if (byName) REQ("P16", c.complete, "a command sent to a named peer is not complete");
        if (!gone && (mode == 5 || mode == 6)) REQ("P16", r, "an answered command is reported as failed"); if (r && !gone) { REQ("P16", g == 1, "a command nobody ran is reported as answered"); REQ("P16", c.response.methodLine == m && c.response.content == body && c.response["id"] == id, "the peer's answer '%s' reads '%s'", m.c_str(), c.response.methodLine.c_str()); }
        if (!r && c.complete) REQ("P16", c.response.methodLine == "500 Internal Server Error", "a lost answer reads '%s'", c.response.methodLine.c_str()); if (gone && !byName && r) REQ("P16", c.response.methodLine == "556 Aborted" || g, "an abandoned command answers '%s'", c.response.methodLine.c_str());
        if (mode <= 2 && !byName && !gone) REQ("P16", !r, "a command the peer never got is reported as answered"); if (mode <= 1 && !byName && !gone && c.request.content.empty()) REQ("P16", !g, "x");
        S->_clusterMessenger->_socketPool.~SMultiHostSocketPool(); new (&S->_clusterMessenger->_socketPool) SMultiHostSocketPool(); c.socket = nullptr;
    }
    n->_leadPeer = nullptr; const_cast<vector<SQLitePeer*>&>(reinterpret_cast<const vector<SQLitePeer*>&>(n->_peerList)).clear();
}
int main(int argc, char** argv) {
    pid_ = argv[1]; string tier = argv[2]; R = Rng(atoll(argv[3])); dir_ = string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); shimDeathNote = [] { return "  history:" + story(); };
    SData args("x"); args["-nodeName"] = "test"; S = new BedrockServer(NS::LEADING, args); S->_shutdownState.store(BedrockServer::RUNNING); Plugin* pl = new Plugin(*S); MGR = new SStandaloneHTTPSManager();
    POOL = make_shared<SQLitePool>(10, dir_ + "/db", 1000000, 5000, 0, 0, false, "PASSIVE", vector<function<void()>>{afterCommit}); S->_dbPool = POOL; S->_version = "1.0"; S->_leaderVersion.store("1.0"); SQLite& db = POOL->getBase();
    db.beginTransaction(); db.write("CREATE TABLE t (id INTEGER PRIMARY KEY, v);"); db.prepare(); db.commit();
    atomic<int> conf(100); N = new SQLiteNode(*S, POOL, "test", "", "", conf, 1000000000, "1.0"); atomic_store(&S->_syncNode, shared_ptr<SQLiteNode>(N, [](SQLiteNode*) {})); S->_clusterMessenger = make_shared<SQLiteClusterMessenger>(S->_syncNode);
    int64_t n = 0; int rounds = tier == "thorough" ? 60000 : 6000; messenger(); for (int i = 0; i < rounds; i++) runOne(pl, n);
    printf("COUNT %lld runs of %d commands\n", (long long) n, rounds); fflush(stdout); _exit(0);
}
