// Replay / failing-input search for P17, P18 and P19: random requests, control commands, port blocks, crash announcements and connections go
// through the real BedrockServer and are compared with oracles written from the property statements.
#include <bits/stdc++.h>
#include <dlfcn.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <libstuff/libstuff.h>
#define private public
#define protected public
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLitePeer.h>
#include <sqlitecluster/SQLiteServer.h>
#include <BedrockCore.h>
#include <BedrockServer.h>
#include <BedrockPlugin.h>
#include <BedrockCommand.h>
#undef private
#undef protected
#include "shim.h"
#include "util.h"
using namespace std;
extern "C" int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; }
extern thread_local function<string()> SSignalHandlerDieFunc;
// threads can be made unavailable
static thread_local int failThreads_ = 0; typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { static pc_t real = (pc_t) dlsym(RTLD_NEXT, "pthread_create"); if (failThreads_ > 0) { failThreads_--; return EAGAIN; } return real(t, a, f, x); }
static string pid_; static Rng R(1); static vector<string> steps_; static mutex sm_;
static bool on(const char* p) { return pid_ == p || pid_ == "all"; }
static string story() { string o; for (auto& s : steps_) o += "\n    " + s; return o; }
#define REQ(P, c, ...) do { if (on(P) && !(c)) { printf("VIOLATED: %s: ", P); printf(__VA_ARGS__); printf("\n  history:%s\n", story().c_str()); fflush(stdout); _exit(1); } } while (0)
static void note(const string& s) { lock_guard<mutex> l(sm_); if (steps_.size() < 300) steps_.push_back(s); }
typedef SQLiteNodeState NS;
static BedrockServer* S; static SQLiteNode* N; static shared_ptr<SQLitePool> POOL; static shared_ptr<SQLiteNode> NP;
static string low(string s) { for (auto& c : s) c = (char) tolower(c); return s; }
// the network: ports are sockets listening on ports of the loopback the system picks
static int opened_;
extern "C" unique_ptr<STCPManager::Port> __wrap__ZN11STCPManager8openPortERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const string& host) {
    opened_++; int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(s, (sockaddr*) &a, sizeof a) || listen(s, 50)) _exit(3); fcntl(s, F_SETFL, fcntl(s, F_GETFL) | O_NONBLOCK); return make_unique<STCPManager::Port>(s, host);
}
static int prio_, prioCalls_; static int64_t prioAsked_; static bool prioRefuse_;
extern "C" int __wrap__ZN10SQLiteNode11setPriorityEi(SQLiteNode*, int p) { prioCalls_++; prio_ = p; if (prioRefuse_) STHROW("409 Taken"); return 7; }
static vector<SData> all_; static mutex am_; static map<string, vector<SData>> peers_; static atomic<int> peerCalls_(0);
extern "C" void __wrap__ZN22SQLiteClusterMessenger8runOnAllERK5SData(SQLiteClusterMessenger*, const SData& d) { lock_guard<mutex> l(am_); all_.push_back(d); }
extern "C" bool __wrap__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SQLiteClusterMessenger*, BedrockCommand& c, const string& n) { { lock_guard<mutex> l(am_); peers_[n].push_back(c.request); } peerCalls_++; return true; }
static bool picky_;
struct Cmd : BedrockCommand {
    bool checked = false; set<string> ids; int slow = 0;
    Cmd(SQLiteCommand&& c, BedrockPlugin* p, set<string> i = {}) : BedrockCommand(move(c), p), ids(i) { for (auto& x : ids) crashIdentifyingValues.insert(x); }
    void die(const char* where) {
        if (!on("P19")) return;
        size_t n; { lock_guard<mutex> l(am_); n = all_.size(); } SSignalHandlerDieFunc(); lock_guard<mutex> l(am_);
        REQ("P19", all_.size() == n + 1, "a crash in %s would be announced to the other nodes %zu times", where, all_.size() - n);
        SData m; m.deserialize(all_.back().content); REQ("P19", all_.back().methodLine == "CRASH_COMMAND" && m.methodLine == request.methodLine, "a crash of %s in %s is announced as '%s' of '%s'", request.methodLine.c_str(), where, all_.back().methodLine.c_str(), m.methodLine.c_str());
        for (auto& x : ids) if (request.isSet(x)) REQ("P19", m[x] == request[x], "the announcement of a crash says %s is '%s', not '%s'", x.c_str(), m[x].c_str(), request[x].c_str()); all_.pop_back();
    }
    bool shouldPrePeek() override { return true; } bool shouldPostProcess() override { return true; }
    void prePeek(SQLite&) override { die("prePeek"); }
    bool peek(SQLite&) override { die("peek"); response["echo"] = request["seq"]; if (slow) this_thread::sleep_for(chrono::microseconds(slow)); return request["process"] != "1"; }
    void process(SQLite& db) override { die("process"); db.write("INSERT INTO t (v) VALUES (1);"); }
    void postProcess(SQLite&) override { die("postProcess"); }
};
static atomic<int> made_(0);
struct Plugin : BedrockPlugin {
    string n = "TEST"; Plugin(BedrockServer& s) : BedrockPlugin(s) {} const string& getName() const override { return n; } bool prevent = false; bool preventAttach() override { return prevent; } string host; string getPort() override { return host; }
    unique_ptr<BedrockCommand> getCommand(SQLiteCommand&& b) override { if (b.request.methodLine.rfind("Test", 0)) return nullptr; if (picky_ && !b.request.isSet("needed")) STHROW("402 Missing needed"); made_++; auto c = make_unique<Cmd>(move(b), this); c->slow = R.p(10) ? 300 : 0; return c; }
};
static Plugin* PL;
static void server() {
    static SData args("x"); args["-nodeName"] = "test"; args["-serverHost"] = "public"; args["-commandPortPrivate"] = "private"; args["-controlPort"] = "control"; S = new BedrockServer(NS::LEADING, args); PL = new Plugin(*S);
    S->_shutdownState.store(BedrockServer::RUNNING); S->_dbPool = POOL; S->_version = "1.0"; S->_leaderVersion.store("1.0"); S->_isCommandPortLikelyBlocked = false; S->_upgradeCompleted = true; S->_maxSocketThreads = 500; S->_outstandingSocketThreads = 0; S->_shouldBlockNewSocketThreads = false; S->_detach = false; S->_syncLoopShouldBeRunning = true; S->_pluginsDetached = false; S->_shouldBackup = false; S->_maxConflictRetries = 3; S->_requestCount = 0; S->_socketThreadNumber = 0; S->plugins["TEST"] = PL;
    static atomic<int> conf(100); if (!N) { N = new SQLiteNode(*S, POOL, "test", "", "", conf, 1000000000, "1.0"); NP = shared_ptr<SQLiteNode>(N, [](SQLiteNode*) {}); } atomic_store(&S->_syncNode, NP); S->_clusterMessenger = make_shared<SQLiteClusterMessenger>(S->_syncNode); N->_state = NS::LEADING; S->_synchronousCommands = {"TestSync"};
}
static unique_ptr<BedrockCommand> cmd(SData&& d) { auto c = make_unique<BedrockCommand>(SQLiteCommand(move(d)), nullptr); c->initiatingClientID = -1; return c; }
// ---------------------------------------------------------------- P19
typedef map<string, string> Print; typedef map<string, set<Print>> Model;
static string key(int i) { static const char* k[] = {"accountID", "EMAIL", "authToken", "list"}; return k[i]; }
static string vary(string s) { if (R.p(50)) for (auto& c : s) c = (char) (R.p(50) ? toupper(c) : tolower(c)); return s; }
static Model real() { Model m; for (auto& p : S->_crashCommands) for (auto& t : p.second) { Print q; for (auto& kv : t) if (low(kv.first) != "content-length") q[low(kv.first)] = kv.second; m[p.first].insert(q); } return m; }
static string show(const Model& m) { string o; for (auto& p : m) for (auto& q : p.second) { o += p.first + "{"; for (auto& kv : q) o += kv.first + "=" + kv.second + " "; o += "} "; } return o.empty() ? "nothing" : o; }
static unique_ptr<BedrockCommand> some(Print& ids, set<string>& names) {
    SData d("Test" + to_string(R.below(3))); for (int i = 0; i < 4; i++) if (R.p(50)) d[vary(key(i))] = R.p(85) ? to_string(R.below(2)) : R.p(50) ? "" : "a: b\nc"; if (R.p(30)) d["other"] = to_string(R.below(9)); if (R.p(20)) d.content = "body";
    for (int i = 0; i < 4; i++) if (R.p(60)) { names.insert(key(i)); }
    auto c = make_unique<Cmd>(SQLiteCommand(move(d)), PL, names); c->initiatingClientID = -1; for (auto& x : names) if (c->request.isSet(x)) ids[low(x)] = c->request[x]; return c;
}
static void crashes(int64_t& n) {
    steps_.clear(); server(); Model m; int len = 4 + R.below(20);
    for (int i = 0; i < len; i++) {
        n++; int w = R.below(10); Print ids; set<string> names; auto c = some(ids, names); string what = c->request.methodLine + show({{"", {ids}}});
        if (w < 3) {
            SData msg = BedrockServer::_generateCrashMessage(c); note("crash announced: " + what); SData sub; sub.deserialize(msg.content); Print got; for (auto& kv : sub.nameValueMap) if (low(kv.first) != "content-length") got[low(kv.first)] = kv.second;
            REQ("P19", msg.methodLine == "CRASH_COMMAND" && sub.methodLine == c->request.methodLine, "the announcement is '%s' of '%s'", msg.methodLine.c_str(), sub.methodLine.c_str()); Print want; for (auto& kv : ids) want[kv.first] = kv.second;
            REQ("P19", got == want, "the announcement of %s says %s", show({{"", {want}}}).c_str(), show({{"", {got}}}).c_str());
            bool remote = R.p(50); SData wire; if (R.p(50)) wire.deserialize(msg.serialize()); else wire = msg; if (remote) wire["_source"] = "10.0.0.9"; auto x = cmd(move(wire)); S->_handleIfStatusOrControlCommand(x); m[sub.methodLine].insert(want);
        } else if (w == 3) { SData d(R.p(50) ? "SetConflictPageLocks" : R.p(50) ? "GetCommitHash" : "CRASH_COMMAND"); auto x = cmd(move(d)); note(x->request.methodLine + " without a body"); S->_handleIfStatusOrControlCommand(x); }
        else if (w == 4 && R.p(30)) { auto x = cmd(SData("ClearCrashCommands")); bool remote = R.p(40); SData& rq = const_cast<SData&>(x->request); if (remote) rq["_source"] = "10.0.0.9"; note(string("ClearCrashCommands") + (remote ? " from another host" : "")); S->_handleIfStatusOrControlCommand(x); if (!remote) m.clear(); }
        else if (w < 6) {
            picky_ = R.p(50); { lock_guard<mutex> l(am_); peers_.clear(); } peerCalls_ = 0; SQLitePeer p("peer", "127.0.0.1:1", STable{}, 1); note("a node joins"); S->onNodeLogin(&p); picky_ = false; int total = 0; for (auto& q : m) total += q.second.size(); for (int t = 0; t < 4000 && peerCalls_ < total; t++) this_thread::sleep_for(chrono::microseconds(500)); this_thread::sleep_for(chrono::microseconds(200)); lock_guard<mutex> l(am_); Model told;
            for (auto& x : peers_["peer"]) { SData sub; sub.deserialize(x.content); Print q; for (auto& kv : sub.nameValueMap) if (low(kv.first) != "content-length") q[low(kv.first)] = kv.second; told[sub.methodLine].insert(q); }
            Model mm; for (auto& q : m) if (!q.second.empty()) mm.insert(q);
            REQ("P19", told == mm, "a node that joins is told %s; known are %s", show(told).c_str(), show(mm).c_str());
        } else {
            bool want = false; if (m.count(c->request.methodLine)) { auto& l = m[c->request.methodLine]; if (l.size() > 1) want = true; for (auto& p : l) { bool fits = true; for (auto& kv : p) if (!c->request.isSet(kv.first) || c->request[kv.first] != kv.second) fits = false; if (fits) want = true; } }
            bool got = S->_wouldCrash(c); string rq; for (auto& kv : c->request.nameValueMap) rq += kv.first + "=" + kv.second + " ";
            REQ("P19", got == want, "%s{%s} is %s; known to crash nodes: %s", c->request.methodLine.c_str(), rq.c_str(), got ? "refused" : "let through", show(m).c_str());
            if (R.p(30)) { if (R.p(50)) const_cast<SData&>(c->request)["process"] = "1"; if (R.p(20)) atomic_store(&S->_syncNode, shared_ptr<SQLiteNode>()); int before = 0; (void) before; note("runCommand " + what); S->runCommand(move(c), false, true); atomic_store(&S->_syncNode, NP); S->_commandQueue.clear(); }
        }
        Model r = real(); Model a, b; for (auto& q : r) if (!q.second.empty()) a.insert(q); for (auto& q : m) if (!q.second.empty()) b.insert(q);
        REQ("P19", a == b, "known to crash nodes: %s, expected: %s", show(a).c_str(), show(b).c_str());
        REQ("P19", S->_crashCommandMutex.try_lock(), "the lock on the list is still held"); S->_crashCommandMutex.unlock();
    }
    S->plugins.clear(); delete PL; S->_commandQueue.clear(); S->_syncNode = nullptr; S->_clusterMessenger = nullptr; delete S;
}
// ---------------------------------------------------------------- P18
static void ports(int64_t& n) {
    steps_.clear(); server(); multiset<string> m; bool running = true; int len = 4 + R.below(25); fd_map fdm; static const char* rs[] = {"MANUAL", "COMMITS_LAGGING_BEHIND", "a", "MaNuAl"}; if (R.p(30)) PL->host = "plugin"; bool detaching = false; bool done = false; unique_ptr<BedrockCommand> live;
    auto control = [&](const char* nm, const string& reason, bool give) { SData d(nm); if (give) d["reason"] = reason; if (R.p(50)) d["_source"] = "10.1.1.1"; auto x = cmd(move(d)); S->_handleIfStatusOrControlCommand(x); };
    for (int i = 0; i < len; i++) {
        n++; string r = rs[R.below(4)]; bool pub0 = (bool) S->_commandPortPublic, prv0 = (bool) S->_commandPortPrivate, ctl0 = (bool) S->_controlPort; int w = R.below(12);
        if (w < 3) { bool viaC = R.p(40); bool give = R.p(70); string rr = viaC ? (give ? r : "MANUAL") : r; note((viaC ? "SuppressCommandPort " : "block ") + rr); if (viaC) control("SuppressCommandPort", r, give); else S->blockCommandPort(r); m.insert(rr); REQ("P18", !S->_commandPortPublic, "the public port is open although it was blocked for %s", rr.c_str()); REQ("P18", S->_portPluginMap.empty() || m.size() > 1, "plugin ports are open although the port was blocked"); REQ("P18", (bool) S->_commandPortPrivate == prv0, "a block changes the private port"); }
        else if (w < 6) { bool viaC = R.p(40); bool give = R.p(70); string rr = viaC ? (give ? r : "MANUAL") : r; note((viaC ? "ClearCommandPort " : "unblock ") + rr); if (viaC) control("ClearCommandPort", r, give); else S->unblockCommandPort(r); auto it = m.find(rr); if (it != m.end()) m.erase(it); REQ("P18", (bool) S->_commandPortPublic == pub0, "lifting a block opens or closes the port by itself"); }
        else if (w == 6) { static const NS a[] = {NS::LEADING, NS::FOLLOWING, NS::SEARCHING, NS::SYNCHRONIZING, NS::STANDINGDOWN, NS::WAITING}; N->_state = a[R.below(6)]; note("node is " + SQLiteNode::stateName(N->_state)); }
        else if (w == 7 && R.p(25) && running) { bool d = R.p(50); if (R.p(50)) live = cmd(SData("Test0")); note(string("shutdown") + (d ? ", detaching" : "")); S->_beginShutdown("test", d); running = false; detaching = d; REQ("P18", !S->_commandPortPublic && !S->_commandPortPrivate && S->_portPluginMap.empty(), "a node that shuts down keeps command ports open"); REQ("P18", (bool) S->_controlPort == (d && ctl0), "a node that %s %s its control port", d ? "detaches" : "stops", d ? "closes" : "keeps"); REQ("P18", S->_shutdownState.load() == BedrockServer::START_SHUTDOWN && S->_detach == d, "the shutdown is not the one asked for"); }
        else if (w == 8 && !running) { note("shutdown asked for again"); auto s0 = S->_shutdownState.load(); S->_beginShutdown("again", !detaching); REQ("P18", S->_shutdownState.load() == s0 && S->_detach == detaching && (bool) S->_controlPort == ctl0, "a second shutdown changes the first"); }
        else if (w == 9 && R.p(30)) { note("reset"); S->_resetServer(); m.clear(); running = true; done = false; live.reset(); atomic_store(&S->_syncNode, NP); S->_upgradeCompleted = true; REQ("P18", !S->_commandPortPublic && !S->_commandPortPrivate, "a node that is reset has command ports open"); REQ("P18", S->_commandPortBlockReasons.empty(), "a node that is reset is blocked"); S->_detach = false; }
        else if (w == 10 && !running) { if (live) { live.reset(); note("the last command ends"); } }
        else {
            if (R.p(10)) S->_outstandingSocketThreads = R.below(2); bool idle = !live && S->_outstandingSocketThreads == 0; note("postPoll" + string(live ? ", a command left" : "") + (S->_outstandingSocketThreads ? ", a connection left" : "")); uint64_t na = 0; S->postPoll(fdm, na);
            bool should = running && m.empty() && (N->_state == NS::LEADING || N->_state == NS::FOLLOWING);
            if (should) { REQ("P18", S->_commandPortPublic && S->_commandPortPrivate && S->_controlPort, "a %s node without blocks has %s%s%s port closed", SQLiteNode::stateName(N->_state).c_str(), S->_commandPortPublic ? "" : "the public ", S->_commandPortPrivate ? "" : "the private ", S->_controlPort ? "" : "the control "); if (!PL->host.empty()) REQ("P18", S->_portPluginMap.size() == 1, "%zu plugin ports are open", S->_portPluginMap.size()); }
            else { REQ("P18", (bool) S->_commandPortPublic == pub0 && (bool) S->_commandPortPrivate == prv0, "a port is opened or closed by a %s node with %zu blocks that %s", SQLiteNode::stateName(N->_state).c_str(), m.size(), running ? "runs" : "shuts down"); }
            if (!running && !done) { done = S->_shutdownState.load() == BedrockServer::COMMANDS_FINISHED; REQ("P18", done == idle, "a node that shuts down with %s goes on: %s", idle ? "nothing left to do" : "work left", done ? "yes" : "no"); }
            S->_outstandingSocketThreads = 0;
        }
        if (!m.empty()) REQ("P18", !S->_commandPortPublic, "the public port is open although it is blocked (%s)", m.begin()->c_str());
        multiset<string> g(S->_commandPortBlockReasons.begin(), S->_commandPortBlockReasons.end()); REQ("P18", g == m, "%zu blocks are in force, not %zu", g.size(), m.size());
        REQ("P18", S->_isCommandPortLikelyBlocked == !m.empty(), "the port is %sblocked, but clients are told the opposite", m.empty() ? "not " : "");
        REQ("P18", S->_portMutex.try_lock(), "the lock on the ports is still held"); S->_portMutex.unlock();
    }
    live.reset(); S->_commandPortPublic = nullptr; S->_commandPortPrivate = nullptr; S->_controlPort = nullptr; S->_portPluginMap.clear(); S->plugins.clear(); delete PL; S->_syncNode = nullptr; S->_clusterMessenger = nullptr; delete S;
}
// connections that end at the same time must still lift the block
static void storm() {
    server(); for (int it = 0; it < 40; it++) {
        steps_.clear(); int k = 51 + R.below(6); S->_outstandingSocketThreads = k; S->_shouldBlockNewSocketThreads = true; S->blockCommandPort("NOT_ENOUGH_THREADS"); note(to_string(k) + " connections end at the same time while too few threads blocked the port"); atomic<bool> go(false); vector<thread> v; vector<int> left;
        for (int i = 0; i < k; i++) { int f[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) _exit(3); close(f[1]); v.emplace_back([&go, fd = f[0]] { STCPManager::Socket s(fd, STCPManager::Socket::CONNECTED); while (!go) this_thread::yield(); S->handleSocket(move(s), false, true, false); }); }
        go = true; for (auto& t : v) t.join(); REQ("P18", S->_outstandingSocketThreads == 0, "%d connections are still counted", (int) S->_outstandingSocketThreads); REQ("P18", S->_commandPortBlockReasons.empty() && !S->_shouldBlockNewSocketThreads, "all connections have ended, but the port stays blocked for want of threads"); S->_commandPortBlockReasons.clear();
    }
}
// no thread can be started for a new connection
static int dial(STCPManager::Port* p) { sockaddr_in a{}; socklen_t l = sizeof a; getsockname(p->s, (sockaddr*) &a, &l); int c = socket(AF_INET, SOCK_STREAM, 0); if (connect(c, (sockaddr*) &a, sizeof a)) _exit(3); return c; }
static void starved() {
    for (int it = 0; it < 12; it++) {
        steps_.clear(); server(); fd_map fdm; uint64_t na = 0; int n0 = 100 + R.below(50); S->_outstandingSocketThreads = n0; bool before = it % 3 == 2; if (before) { S->_shouldBlockNewSocketThreads = true; } S->postPoll(fdm, na); int which = R.below(3); STCPManager::Port* p = (which == 0 ? S->_commandPortPublic : which == 1 ? S->_commandPortPrivate : S->_controlPort).get(); int k = 1 + R.below(3); vector<int> cs; for (int i = 0; i < k; i++) cs.push_back(dial(p)); int fails = R.below(k + 1);
        note(to_string(k) + " clients connect to the " + (which == 0 ? "public" : which == 1 ? "private" : "control") + " port of a node with " + to_string(n0) + " connections that can not start " + to_string(fails) + " of the threads for them"); atomic<bool> done(false); thread t([&] { failThreads_ = fails; for (int i = 0; i <= fails; i++) S->postPoll(fdm, na); failThreads_ = 0; done = true; }); for (int w = 0; w < 4000 && !done; w++) this_thread::sleep_for(chrono::milliseconds(1)); REQ("P18", done, "the node hangs while it accepts connections"); if (!done) _exit(3); t.join();
        int alive = 0; for (int c : cs) { pollfd q{c, POLLIN, 0}; poll(&q, 1, 30); char b; ssize_t z = recv(c, &b, 1, MSG_DONTWAIT); if (z < 0 && errno == EAGAIN) alive++; }
        if (which == 0 && fails && !before) REQ("P18", alive == 0 || fails < k, "a connection without a thread stays open");
        REQ("P18", (int) S->_outstandingSocketThreads == n0 + alive, "%d connections are served, %d are counted", n0 + alive, (int) S->_outstandingSocketThreads); REQ("P18", S->_shouldBlockNewSocketThreads == (before || fails > 0) && S->_commandPortBlockReasons.size() == (size_t) (!before && fails > 0), "the port has %zu blocks for want of threads", S->_commandPortBlockReasons.size()); REQ("P18", S->_portMutex.try_lock(), "the lock on the ports is still held"); S->_portMutex.unlock();
        for (int c : cs) close(c); for (int w = 0; w < 4000 && S->_outstandingSocketThreads != n0; w++) this_thread::sleep_for(chrono::milliseconds(1)); REQ("P18", S->_outstandingSocketThreads == n0, "finished connections stay counted"); S->_commandPortPublic = nullptr; S->_commandPortPrivate = nullptr; S->_controlPort = nullptr; S->_outstandingSocketThreads = 0;
    }
}
// ---------------------------------------------------------------- P17
static void control(int64_t& n) {
    steps_.clear(); n++; static const char* cs[] = {"BeginBackup", "SuppressCommandPort", "ClearCommandPort", "ClearCrashCommands", "ConflictReport", "Detach", "Attach", "SetConflictParams", "SetConflictPageLocks", "EnableSQLTracing", "UnblockWrites", "SetMaxSocketThreads", "SetBlockingQueueTimeRateLimit", "ClearBlockingQueue", "SetPriority", "GetCommitHash", "CRASH_COMMAND", "Test0", "Ping", "Status", "ControlX"};
    static const set<string> anyone = {"suppresscommandport", "clearcommandport", "getcommithash", "crash_command"}; int ci = R.below(21); string nm = vary(cs[ci]), l = low(nm); bool ctl = ci < 17, stat = ci == 18 || ci == 19; SData d(nm); string src = R.p(45) ? "10.0.0.9" : ""; if (!src.empty() || R.p(20)) d["_source"] = src;
    int64_t pr = 0; if (l == "setpriority") { static const int64_t v[] = {0, 1, 2, 5, -1, 2147483647ll, 2147483648ll, 4294967296ll, 4294967297ll, 4294967298ll, -4294967290ll, 100}; pr = v[R.below(12)]; if (R.p(90)) d["priority"] = to_string(pr); prioRefuse_ = R.p(20); }
    if (l == "setmaxsocketthreads") d["socketThreadsCount"] = to_string(R.below(3)); if (l == "getcommithash" && R.p(90)) d["commitCount"] = to_string(R.below(4)); bool prevent = R.p(30); PL->prevent = prevent; S->_shutdownState.store(R.p(60) ? BedrockServer::RUNNING : R.p(50) ? BedrockServer::COMMANDS_FINISHED : BedrockServer::DONE); auto sh0 = S->_shutdownState.load(); S->_detach = R.p(50); S->_syncLoopShouldBeRunning = R.p(50); S->_pluginsDetached = R.p(80); bool det0 = S->_detach, run0 = S->_syncLoopShouldBeRunning, isdet = S->isDetached(); S->_shouldBackup = false; S->_maxSocketThreads = 9; prioCalls_ = 0; prio_ = -99; S->_crashCommands = {{"Test9", {STable{{"a", "1"}}}}}; S->_commandPortBlockReasons.clear();
    vector<int> fds; int q = 0; if (R.p(40)) { q = R.below(4); for (int i = 0; i < q; i++) { int f[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) _exit(3); auto* so = new STCPManager::Socket(f[0], STCPManager::Socket::CONNECTED); auto c = cmd(SData("TestQ" + to_string(i))); c->socket = so; c->initiatingClientID = 5; S->_blockingCommandQueue.push(move(c)); fds.push_back(f[1]); } }
    auto x = cmd(move(d)); x->response.methodLine = ""; string said = x->request.methodLine; note(said + (src.empty() ? " from this machine" : " from " + src) + (l == "setpriority" ? " priority=" + x->request["priority"] : "")); bool handled = S->_handleIfStatusOrControlCommand(x); string a = x->response.methodLine; bool may = ctl && (src.empty() || anyone.count(l)); int before = q;
    REQ("P17", handled == (ctl || stat), "%s is %s", said.c_str(), handled ? "handled as a control or status command" : "not handled at once"); if (ctl && !may) REQ("P17", a == "401 Unauthorized", "%s from another host answers '%s'", said.c_str(), a.c_str());
    bool attach = may && l == "attach" && !prevent && sh0 == BedrockServer::RUNNING; bool begin = may && (l == "beginbackup" || (l == "detach" && !isdet)) && sh0 == BedrockServer::RUNNING;
    REQ("P17", S->_shouldBackup == (may && l == "beginbackup"), "%s: a backup is %s", said.c_str(), S->_shouldBackup ? "asked for" : "not asked for"); REQ("P17", (S->_shutdownState.load() != sh0) == begin, "%s: the shutdown %s", said.c_str(), begin ? "does not start" : "starts"); REQ("P17", S->_detach == (attach ? false : begin ? true : det0) && S->_syncLoopShouldBeRunning == (attach ? true : run0), "%s%s: attached or detached wrongly", said.c_str(), prevent ? " (a plugin prevents attaching)" : ""); if (may && l == "attach") REQ("P17", (a == "204 ATTACHING") == attach, "Attach answers '%s'", a.c_str());
    if (may && l == "setpriority") { bool valid = x->request.isSet("priority") && pr >= 0 && pr != 1 && pr <= 2147483647ll; REQ("P17", prioCalls_ == (valid ? 1 : 0), "SetPriority %s sets priority %d", x->request["priority"].c_str(), prio_); if (valid) REQ("P17", prio_ == pr, "SetPriority %lld sets priority %d", (long long) pr, prio_); REQ("P17", (a == "200 OK") == (valid && !prioRefuse_), "SetPriority %s answers '%s'", x->request["priority"].c_str(), a.c_str()); } else REQ("P17", prioCalls_ == 0, "%s changes the priority", said.c_str());
    REQ("P17", S->_maxSocketThreads > 0 && (S->_maxSocketThreads == 9 || (may && l == "setmaxsocketthreads")), "%s allows %d connections", said.c_str(), (int) S->_maxSocketThreads); REQ("P17", (S->_commandPortBlockReasons.size() == 1) == (may && l == "suppresscommandport"), "%s: %zu blocks", said.c_str(), S->_commandPortBlockReasons.size());
    REQ("P17", S->_crashCommands.size() == (may && l == "clearcrashcommands" ? 0 : 1), "%s changes the list of commands known to crash nodes", said.c_str());
    if (may && l == "getcommithash") { string cc = x->request["commitCount"], h; uint64_t c = x->request.calcU64("commitCount"); bool there = c && POOL->getBase().getCommit(c, nullptr, &h); REQ("P17", (a == "200 OK") == there, "GetCommitHash %s answers '%s'", cc.c_str(), a.c_str()); if (there) REQ("P17", x->response["hash"] == h && x->response["commitCount"] == cc, "GetCommitHash %s answers another hash", cc.c_str()); }
    bool cleared = may && l == "clearblockingqueue"; REQ("P17", S->_blockingCommandQueue.size() == (size_t) (cleared ? 0 : before), "%s leaves %zu of %d commands in the blocking queue", said.c_str(), S->_blockingCommandQueue.size(), before);
    if (cleared) REQ("P17", S->_blockingCommandQueue.getAll().empty(), "x"); auto rest = S->_blockingCommandQueue.getAll();
    for (int fd : fds) { string all; char b[4096]; ssize_t k; while ((k = recv(fd, b, sizeof b, MSG_DONTWAIT)) > 0) all.append(b, k); int cnt = 0; string m; while (!all.empty()) { SData r; int z = r.deserialize(all); if (!z) { cnt = 99; break; } m = r.methodLine; cnt++; all = all.substr(z); } REQ("P17", cnt == (cleared ? 1 : 0), "a queued command is answered %d times by %s", cnt, said.c_str()); if (cleared) REQ("P17", m == "503 Service Unavailable", "a flushed command answers '%s'", m.c_str()); close(fd); }
    for (auto& c : rest) { delete c->socket; c->socket = nullptr; } S->_commandPortPublic = nullptr; S->_blockingCommandQueue.clearRateLimits(); S->_shutdownState.store(BedrockServer::RUNNING); SQLite::enableTrace.store(false); S->_controlPort = nullptr;
}
static void build(int64_t& n) {
    steps_.clear(); n++; int f[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) _exit(3); STCPManager::Socket so(f[0], STCPManager::Socket::CONNECTED); static const char* ips[] = {"127.0.0.1", "10.0.0.9", "0.0.0.0", "127.0.0.11"}; string ip = ips[R.below(4)]; so.addr.sin_family = AF_INET; inet_aton(ip.c_str(), &so.addr.sin_addr); bool priv = R.p(40); S->_shutdownState.store(R.p(80) ? BedrockServer::RUNNING : BedrockServer::START_SHUTDOWN); bool run = S->_shutdownState.load() == BedrockServer::RUNNING;
    SData d(R.p(30) ? "TestSync" : "Test1"); string src; bool claims = R.p(50); if (claims) { src = R.p(50) ? "" : R.p(50) ? "127.0.0.1" : "10.7.7.7"; d["_source"] = src; } static const char* cn[] = {"forget", "FORGET", "close", "wait", ""}; string conn = cn[R.below(5)]; if (!conn.empty()) d["Connection"] = conn; bool forget = low(conn) == "forget"; bool future = R.p(10); if (future) d["commandExecuteTime"] = to_string(STimeNow() + 1000000000); d["x"] = "y"; d.content = R.p(50) ? "body" : ""; string body = d.content; bool bad = R.p(10); if (bad) d["httpsRequests"] = "[{\"created\":\"zz\"}]"; string m = d.methodLine;
    note(m + " from " + ip + (priv ? " on the private port" : "") + (claims ? " claiming source '" + src + "'" : "") + " Connection: " + conn + (future ? " for later" : "") + (run ? "" : " on a node that shuts down")); auto c = S->buildCommandFromRequest(move(d), so, priv); bool ff = forget || future; char b[4096]; ssize_t k = recv(f[1], b, sizeof b, MSG_DONTWAIT); bool receipt = k > 0; REQ("P17", receipt == ff, "a client that %s a receipt", receipt ? "waits gets" : "does not wait gets no"); if (receipt) { SData r; REQ("P17", r.deserialize(string(b, k)) == k, "not exactly one receipt"); }
    REQ("P17", (bool) c == !(ff && !run), "the request is %s", c ? "kept" : "dropped");
    if (c) { string want = priv || ip == "127.0.0.1" ? src : ip; REQ("P17", c->request["_source"] == want, "the command is said to come from '%s', not '%s'", c->request["_source"].c_str(), want.c_str()); REQ("P17", c->request.methodLine == m && c->request["x"] == "y" && c->request.content == body, "the command is not the request"); REQ("P17", !c->request.isSet("httpsRequests") && !c->request.isSet("serializedData"), "internal data stays in the request"); REQ("P17", (c->socket == nullptr) == ff && (ff || c->socket == &so), "the command has the wrong connection"); REQ("P17", c->initiatingClientID == (forget ? -1 : (int64_t) so.id), "the command has client %lld", (long long) c->initiatingClientID); REQ("P17", c->isSynchronous == (m == "TestSync"), "the command is %ssynchronous", c->isSynchronous ? "" : "not "); if (!bad) REQ("P17", !c->complete, "the command is complete before it ran"); c->socket = nullptr; }
    close(f[1]); S->_shutdownState.store(BedrockServer::RUNNING);
}
// a client sends requests one after the other and must get the answers in order, each once
static void talk(int64_t& n) {
    steps_.clear(); int f[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) _exit(3); int port = R.below(3); made_ = 0; int k = 1 + R.below(5); note(string("a connection on the ") + (port == 0 ? "control" : port == 1 ? "public" : "private") + " port"); S->_shutdownState.store(BedrockServer::RUNNING); S->_outstandingSocketThreads = 1; bool dn = port == 0 && R.p(30); if (dn) { S->_shutdownState.store(BedrockServer::COMMANDS_FINISHED); note("(the node shuts down)"); } S->_isCommandPortLikelyBlocked = R.p(20); bool blocked = S->_isCommandPortLikelyBlocked; S->_shouldBlockNewSocketThreads = false;
    thread t([fd = f[0], port] { STCPManager::Socket s(fd, STCPManager::Socket::CONNECTED); s.addr.sin_family = AF_INET; inet_aton("127.0.0.1", &s.addr.sin_addr); S->handleSocket(move(s), port == 0, port == 1, port == 2); });
    int seq = 0, made = 0; bool closed = false;
    for (int i = 0; i < k && !closed; i++) {
        n++; int kind = R.below(5); SData d(kind == 0 ? "Ping" : kind == 1 ? "SetConflictPageLocks" : kind == 2 ? "Unheard" : "Test1"); d["seq"] = to_string(++seq); if (R.p(10)) d["Connection"] = "close"; if (R.p(20)) d["process"] = "1"; bool wantClose = d["Connection"] == "close" || (blocked && port == 1) || dn; d.content = R.p(30) ? string(R.below(9000), 'z') : ""; string o = d.serialize(); note(d.methodLine + " " + d["seq"]); size_t cut = R.p(30) ? R.below(o.size()) : o.size(); if (cut) { (void) !write(f[1], o.data(), cut); } if (cut < o.size()) { this_thread::sleep_for(chrono::microseconds(R.below(2000))); (void) !write(f[1], o.data() + cut, o.size() - cut); }
        string in; char b[65536]; SData r; int z = 0; for (int w = 0; w < 1500; w++) { pollfd p{f[1], POLLIN, 0}; if (poll(&p, 1, 10) > 0) { ssize_t q = recv(f[1], b, sizeof b, 0); if (q <= 0) { closed = true; break; } in.append(b, q); if ((z = r.deserialize(in))) break; } }
        REQ("P17", z > 0, "%s %d is not answered", d.methodLine.c_str(), seq); REQ("P17", (size_t) z == in.size(), "%s %d is answered more than once", d.methodLine.c_str(), seq); if (kind >= 3) { if (dn) REQ("P17", r.methodLine == "500 Server Shutting Down", "a command on the control port of a node shutting down answers '%s'", r.methodLine.c_str()); else { made++; REQ("P17", r["echo"] == d["seq"], "request %s gets the answer of '%s' (%s)", d["seq"].c_str(), r["echo"].c_str(), r.methodLine.c_str()); } } else if (kind == 2 && !dn) REQ("P17", r.methodLine.rfind("430", 0) == 0, "an unknown command answers '%s'", r.methodLine.c_str());
        if (wantClose) { pollfd p{f[1], POLLIN, 0}; bool eof = false; for (int w = 0; w < 300 && !eof; w++) { if (poll(&p, 1, 10) > 0) eof = recv(f[1], b, sizeof b, 0) <= 0; } REQ("P17", eof || dn, "the connection stays open after Connection: close"); closed = eof; }
    }
    ::shutdown(f[1], SHUT_RDWR); t.join(); close(f[1]); REQ("P17", S->_outstandingSocketThreads == 0, "a finished connection is counted %d times", 1 - (int) S->_outstandingSocketThreads); S->_shutdownState.store(BedrockServer::RUNNING); S->_isCommandPortLikelyBlocked = false; (void) made;
    REQ("P17", POOL->_inUseHandles.empty(), "a database handle is not given back");
}
int main(int argc, char** argv) {
    pid_ = argv[1]; string tier = argv[2]; R = Rng(atoll(argv[3])); signal(SIGPIPE, SIG_IGN); string dir = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"; shimDeathNote = [] { return "  history:" + story(); };
    POOL = make_shared<SQLitePool>(10, dir + "/db", 1000000, 5000, 0); SQLite& db = POOL->getBase(); for (int i = 0; i < 2; i++) { db.beginTransaction(); db.write(i ? "INSERT INTO t (v) VALUES (7);" : "CREATE TABLE t (id INTEGER PRIMARY KEY, v);"); db.prepare(); db.commit(); }
    int64_t n = 0; int k = tier == "thorough" ? 10 : 1;
    if (on("P19")) for (int i = 0; i < 250 * k; i++) crashes(n);
    if (on("P18")) { for (int i = 0; i < 700 * k; i++) ports(n); for (int i = 0; i < k; i++) storm(); for (int i = 0; i < k; i++) starved(); }
    if (on("P17")) { server(); for (int i = 0; i < 2500 * k; i++) control(n); for (int i = 0; i < 1500 * k; i++) build(n); for (int i = 0; i < 60 * k; i++) talk(n); }
    printf("COUNT %lld operations\n", (long long) n); fflush(stdout); _exit(0);
}
