// Replay / failing-input search for P03, P06-P11: one step of a real SQLiteNode from random cluster situations, compared with
// oracles written from the property statements; and real journals moved between nodes with losses, reorderings and failures.
#include <bits/stdc++.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <libstuff/libstuff.h>
#define private public
#define protected public
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLitePeer.h>
#include <sqlitecluster/SQLiteServer.h>
#include <plugins/Compression.h>
#undef private
#undef protected
#include <libstuff/SData.h>
#include <libstuff/sqlite3.h>
#include "shim.h"
#include "util.h"
using namespace std;
typedef SQLiteNodeState S; typedef SQLitePeer::Response RSP;
static string pid_; static Rng R(1); static string dir_, what_;
static bool on(const char* p) { return pid_ == p || pid_ == "all"; }
struct PeerSnap { SQLitePeer* p; bool perma, in, sub, forked; int prio; S state; RSP resp; uint64_t count; string hash; };
struct Snap { S state; int prio, conf; bool shut; SQLitePeer *lead, *sync; int changes; uint64_t count, lastSent; size_t queued; vector<PeerSnap> peers; };
struct Sent { SQLitePeer* p; SData m; }; static vector<Sent> sent_; static vector<SQLitePeer*> shut_; static mutex sentM_;
extern "C" int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; } // keep the crash reporting of shim.cpp
struct Tr { S to; Snap at; }; static vector<Tr> trs_; static bool enabledAtLastSend_; static SQLiteNode* N = nullptr;
extern "C" void __wrap__ZN10SQLitePeer11sendMessageERK5SData(SQLitePeer* p, const SData* m) { lock_guard<mutex> l(sentM_); sent_.push_back({p, *m}); }
extern "C" void __wrap__ZN10SQLitePeer14shutdownSocketEv(SQLitePeer* p) { lock_guard<mutex> l(sentM_); shut_.push_back(p); }
static const char* nm(S s) { static const char* n[] = {"UNKNOWN", "SEARCHING", "SYNCHRONIZING", "WAITING", "STANDINGUP", "LEADING", "STANDINGDOWN", "SUBSCRIBING", "FOLLOWING"}; return n[(int) s]; }
static const char* rn(RSP r) { static const char* n[] = {"NONE", "APPROVE", "DENY"}; return n[(int) r]; }
static Snap snap(SQLiteNode* n) {
    Snap s{n->_state, n->_priority, n->_configuredPriority, n->_isShuttingDown, n->_leadPeer, n->_syncPeer, n->_stateChangeCount, n->_db._sharedData.commitCount, n->_lastSentTransactionID, n->_replicateQueue.size(), {}};
    for (auto p : n->_peerList) { PeerSnap q{p, p->permaFollower, p->loggedIn, p->subscribed, p->forked, p->priority, p->state, p->standupResponse, p->commitCount, p->hash.load()}; s.peers.push_back(q); } return s;
}
static string show(const Snap& s) {
    ostringstream o; o << "node state=" << nm(s.state) << " priority=" << s.prio << " configured=" << s.conf << " commits=" << s.count << " lastSent=" << s.lastSent << (s.shut ? " shutting down" : "") << " lead=" << (s.lead ? s.lead->name : "-") << " sync=" << (s.sync ? s.sync->name : "-") << " changes=" << s.changes;
    for (auto& p : s.peers) o << "\n      " << p.p->name << (p.perma ? " permafollower" : "") << (p.in ? " loggedIn" : "") << (p.sub ? " subscribed" : "") << (p.forked ? " forked" : "") << " priority=" << p.prio << " state=" << nm(p.state) << " answer=" << rn(p.resp) << " commits=" << p.count;
    return o.str();
}
static Snap before_, after_;
static string story() { string o = "\n  step: " + what_ + "\n  before: " + show(before_) + "\n  after:  " + show(after_); for (auto& t : trs_) o += string("\n  changed state to ") + nm(t.to); for (size_t i = 0; i < sent_.size() && i < 12; i++) { string x = sent_[i].m.methodLine; for (auto& [k, v] : sent_[i].m.nameValueMap) x += " " + k + "=" + v.substr(0, 50); o += "\n  sent to " + sent_[i].p->name + ": " + x; } return o; }
#define REQ(P, c, ...) do { if (on(P) && !(c)) { printf("VIOLATED: %s: ", P); printf(__VA_ARGS__); printf("%s\n", story().c_str()); fflush(stdout); _exit(1); } } while (0)
struct Server : SQLiteServer {
    int blocks = 0;
    void onNodeLogin(SQLitePeer*) override {}
    void notifyStateChangeToPlugins(SQLite&, S s) override { if (N) trs_.push_back({s, snap(N)}); }
    void blockCommandPort(const string&) override { blocks++; } void unblockCommandPort(const string&) override { blocks--; }
} server_;
struct World { SQLiteNode* n; shared_ptr<SQLitePool> pool; atomic<int> conf{100}; uint64_t real; vector<pair<string, string>> hist; };
static World* world(int peers, const string& tag, int commits) {
    World* w = new World; string d = dir_ + "/" + tag; mkdir(d.c_str(), 0700); w->pool = make_shared<SQLitePool>(10, d + "/db", 1000000, 5000, 0);
    string list; for (int i = 0; i < peers; i++) list += (i ? "," : "") + string("host") + to_string(i) + ".fake:1555" + to_string(i) + "?nodeName=peer" + to_string(i);
    w->n = new SQLiteNode(server_, w->pool, "test", "", list, w->conf, 1000000000, "1.0"); w->n->_port.reset(new STCPManager::Port(-1, ""));
    SQLite& db = w->pool->getBase();
    for (int i = 0; i < commits; i++) { string q = i ? "INSERT INTO t VALUES (" + to_string(i) + ");" : "CREATE TABLE t (a);"; db.beginTransaction(); if (!db.write(q)) FAIL("setup write"); if (!db.prepare() || db.commit()) FAIL("setup commit"); w->hist.push_back({q, db.getCommittedHash()}); }
    db.popCommittedTransactions(); w->real = commits; return w;
}
static bool full(const PeerSnap& p) { return !p.perma; }
template<class F> static int cnt(const Snap& s, F f) { int n = 0; for (auto& p : s.peers) n += f(p) ? 1 : 0; return n; }
static bool leadish(S s) { return s == S::STANDINGUP || s == S::LEADING || s == S::STANDINGDOWN; }
static const PeerSnap& of(const Snap& s, SQLitePeer* p) { for (auto& x : s.peers) if (x.p == p) return x; static PeerSnap z{}; return z; }
static S anyState() { return (S) (R.p(4) ? 0 : 1 + R.below(8)); }
static int anyPrio() { static int v[] = {-1, 0, 1, 50, 100, 101, 150, 200, 250}; return v[R.below(9)]; }
static uint64_t anyCount(uint64_t mine) { switch (R.below(6)) { case 0: return mine; case 1: return mine + 1 + R.below(3); case 2: return mine ? mine - 1 : 0; case 3: return 0; case 4: return mine + 1000; default: return R.below(30); } }
// a random situation
static void randomise(World* w, S st, bool fakeCount) {
    SQLiteNode* n = N = w->n; n->_state = st; n->_priority = R.p(70) ? 100 : anyPrio(); w->conf = R.p(80) ? 100 : R.below(3) * 60; n->_isShuttingDown = R.p(8); n->_stateChangeCount = R.below(50); n->_lastSentTransactionID = 0;
    n->_db._sharedData.commitCount = fakeCount ? (uint64_t) R.below(40) : w->real; n->_haveSeenPeerOnSameVersion = R.p(50); n->_haveBeenWAITING = R.p(50); n->_stateTimeout = R.p(40) ? 1 : STimeNow() + 100000000; n->_blockedCommandPortForBeingBehind = false; n->_db.setCommitEnabled(true); n->_replicateThreadShouldExitTime = 0; n->_replicateThread = nullptr; while (!n->_replicateQueue.empty()) n->_replicateQueue.pop();
    uint64_t mine = n->_db._sharedData.commitCount; int mood = R.below(4);
    for (auto p : n->_peerList) {
        p->permaFollower = R.p(20); p->loggedIn = R.p(mood == 0 ? 50 : 80); p->subscribed = p->loggedIn && R.p(mood == 1 ? 50 : 75); p->forked = R.p(mood == 2 ? 30 : 7); p->priority = mood == 3 ? R.below(95) : anyPrio(); p->state = mood == 3 ? (R.p(80) ? S::WAITING : anyState()) : anyState(); p->latency = R.below(3) * 100;
        int r = R.below(10); p->standupResponse = r < 5 ? RSP::APPROVE : r < 9 ? RSP::NONE : RSP::DENY; p->setCommit(mood == 3 && R.p(70) ? mine : anyCount(mine), "h" + to_string(R.below(3))); p->version = R.p(50) ? "1.0" : "2.0";
    }
    int k = n->_peerList.size(); n->_leadPeer = nullptr; n->_syncPeer = nullptr;
    if (k && (st == S::SUBSCRIBING || st == S::FOLLOWING)) n->_leadPeer = n->_peerList[R.below(k)];
    if (k && st == S::SYNCHRONIZING) n->_syncPeer = n->_peerList[R.below(k)];
}
static void start_(const string& w) { what_ = w; sent_.clear(); shut_.clear(); trs_.clear(); before_ = snap(N); after_ = before_; }
static void finish_() { after_ = snap(N); }
// does f end the process? (run in a child)
static bool dies(function<void()> f) { fflush(stdout); pid_t c = fork(); if (!c) { for (int s : {SIGABRT, SIGSEGV}) signal(s, SIG_DFL); prctl(PR_SET_DUMPABLE, 0); f(); _exit(0); } int st; waitpid(c, &st, 0); return WIFSIGNALED(st); }
static bool mustDie(const Snap& s, SQLitePeer* also) { int n = cnt(s, full) + (s.conf != 0), k = cnt(s, [&](const PeerSnap& p) { return full(p) && (p.forked || p.p == also); }); return k >= (n + 1) / 2; }
static SData msg(const char* line, World* w, SQLitePeer* p) { SData m(line); uint64_t c; string h; p->getCommit(c, h); m["CommitCount"] = to_string(c); m["Hash"] = h; m["commandAddress"] = "x"; return m; }
static vector<SData> to(SQLitePeer* p, const char* line = nullptr) { vector<SData> o; for (auto& s : sent_) if (s.p == p && (!line || s.m.methodLine == line)) o.push_back(s.m); return o; }

// ---------------------------------------------------------------- the steps
static void stepUpdate(World* w, S st) {
    randomise(w, st, true); SQLiteNode* n = N; int np = n->_peerList.size(); if (!np && st != S::SEARCHING) return; if (st == S::FOLLOWING && !n->_leadPeer) return;
    n->_lastSentTransactionID = 0; start_(string("update() in ") + nm(st)); map<uint64_t, pair<string, string>> tx;
    if (st == S::LEADING || st == S::STANDINGDOWN) { for (int i = R.below(3); i > 0; i--) tx[n->_db._sharedData.commitCount - i] = {"q" + to_string(i), "h"}; n->_db._sharedData._committedTransactions = tx; }
    n->update(); finish_(); const Snap& o = before_;
    auto lin = [&](const PeerSnap& p) { return full(p) && p.in; }; auto el = [&](const PeerSnap& p) { return full(p) && !p.forked; }; auto elin = [&](const PeerSnap& p) { return el(p) && p.in; };
    for (auto& t : trs_) {
        if (st == S::STANDINGUP) {
            REQ("P06", t.to == S::LEADING || t.to == S::SEARCHING, "standing up ended in %s", nm(t.to));
            if (t.to == S::LEADING) { REQ("P06", 2 * cnt(o, [&](const PeerSnap& p) { return lin(p) && p.resp == RSP::APPROVE; }) >= cnt(o, full), "a node started leading without approvals from half the other full peers"); REQ("P06", 2 * cnt(o, lin) >= cnt(o, full), "a node started leading while not connected to half the other full peers"); REQ("P06", !cnt(o, [&](const PeerSnap& p) { return lin(p) && p.resp == RSP::DENY; }), "a node started leading over a denial"); REQ("P06", !o.shut, "a node started leading while shutting down"); }
        } else if (st == S::WAITING) {
            REQ("P06", t.to != S::LEADING && t.to != S::STANDINGDOWN && t.to != S::FOLLOWING, "a waiting node went %s", nm(t.to));
            if (t.to == S::STANDINGUP) {
                REQ("P06", 2 * cnt(o, elin) >= cnt(o, el), "a node stood up while not connected to half the full peers it can work with"); REQ("P06", !o.shut, "a node stood up while shutting down"); REQ("P06", !cnt(o, elin) || o.prio > 0, "a node of no priority stood up");
                for (auto& p : o.peers) if (elin(p)) { REQ("P06", o.prio > p.prio, "a node stood up though %s has priority %d", p.p->name.c_str(), p.prio); REQ("P06", o.count >= p.count, "a node stood up though %s has more commits", p.p->name.c_str()); REQ("P06", !leadish(p.state), "a node stood up though %s is %s", p.p->name.c_str(), nm(p.state)); }
                for (auto& p : after_.peers) REQ("P06", p.resp == RSP::NONE, "an earlier answer of %s is still counted", p.p->name.c_str());
            }
            if (t.to == S::SUBSCRIBING) { REQ("P06", after_.lead && elin(of(o, after_.lead)) && of(o, after_.lead).state == S::LEADING, "a node subscribed to a peer that is not a connected, unforked leader"); }
        } else if (st == S::SEARCHING && np) {
            REQ("P06", t.to == S::WAITING || t.to == S::SYNCHRONIZING, "a searching node went %s", nm(t.to));
            if (t.to == S::WAITING) { REQ("P06", 2 * cnt(o, lin) >= cnt(o, full), "a node left SEARCHING while not connected to half the other full peers"); for (auto& p : o.peers) if (p.in && !p.forked) REQ("P06", o.count >= p.count, "a node went WAITING though %s has more commits", p.p->name.c_str()); }
            if (t.to == S::SYNCHRONIZING) { REQ("P06", after_.sync, "a node synchronizes from nobody"); if (after_.sync) { auto& p = of(o, after_.sync); REQ("P09", p.in && !p.forked && p.count > o.count, "a node synchronizes from a peer it cannot use"); } }
        } else if (st == S::LEADING || st == S::STANDINGDOWN) REQ("P06", (t.to == S::STANDINGDOWN && t.at.state == S::LEADING) || (t.to == S::SEARCHING && t.at.state == S::STANDINGDOWN), "a leader went from %s to %s", nm(t.at.state), nm(t.to));
        else if (st == S::FOLLOWING || st == S::SYNCHRONIZING || st == S::SUBSCRIBING) REQ("P06", t.to == S::SEARCHING, "a node in %s went %s by itself", nm(st), nm(t.to));
    }
    if (st == S::LEADING) {
        bool go = o.shut || o.prio == 1; for (auto& p : o.peers) if (p.state == S::LEADING || (p.state == S::WAITING && (p.prio > o.prio || p.count > o.count))) go = true;
        REQ("P06", !go || after_.state == S::SEARCHING, "a leader that should give up the lead went on leading");
        if (after_.state != S::LEADING) REQ("P06", n->_db._sharedData._committedTransactions.empty(), "a leader gave up the lead with commits it had not broadcast");
    }
    if (st == S::FOLLOWING && o.lead) { S ls = of(o, o.lead).state; REQ("P06", ls == S::LEADING || ls == S::STANDINGDOWN || after_.state == S::SEARCHING, "a follower went on following a peer that is %s", nm(ls)); }
    if (st == S::LEADING || st == S::STANDINGDOWN) for (auto& p : o.peers) {
        auto got = to(p.p, "TRANSACTION"); vector<SData> want; bool eligible = p.sub && !p.forked; size_t i = 0;
        if (eligible) for (auto& [id, t] : tx) if (id > o.lastSent) { REQ("P03", i < got.size() && got[i]["NewCount"] == to_string(id) && got[i]["ID"] == to_string(id) && got[i]["NewHash"] == t.second && got[i].content == t.first, "commit %llu was not broadcast to %s as committed", (unsigned long long) id, p.p->name.c_str()); i++; }
        REQ("P03", got.size() == i, "%s was sent %zu transactions, expected %zu", p.p->name.c_str(), got.size(), i);
    }
    for (auto& s : sent_) REQ("P09", !of(o, s.p).forked, "a message was sent to the forked peer %s", s.p->name.c_str());
    n->_db._sharedData._committedTransactions.clear();
}
static void stepChange(World* w) {
    S from = (S) (1 + R.below(8)), nw = (S) (1 + R.below(8)); randomise(w, from, true); SQLiteNode* n = N; if (!n->_peerList.empty() && R.p(30)) n->_leadPeer = n->_peerList[0]; start_(string("_changeState(") + nm(nw) + ")"); uint64_t c = n->_db._sharedData.commitCount; n->_lastSentTransactionID = c ? c - 1 : 0; before_.lastSent = n->_lastSentTransactionID;
    if (c) n->_db._sharedData._committedTransactions[c] = {"q", "h"}; bool lead = from == S::LEADING || from == S::STANDINGDOWN, leaving = lead && nw != S::LEADING && nw != S::STANDINGDOWN; if (from == S::FOLLOWING && R.p(50)) n->_replicateQueue.push({nullptr, SData("X")}); n->_db.setCommitEnabled(true);
    n->_changeState(nw); finish_(); const Snap& o = before_; bool ch = from != nw; bool en = n->_db._sharedData._commitEnabled;
    REQ("P07", after_.state == nw, "the node is %s, not %s", nm(after_.state), nm(nw));
    for (auto& p : o.peers) { auto s = to(p.p, "STATE"); REQ("P07", s.size() == (ch && !p.forked ? 1u : 0u), "%s was told %zu times of the change", p.p->name.c_str(), s.size()); if (s.size()) REQ("P07", s[0]["State"] == nm(nw) && s[0]["Priority"] == to_string(after_.prio) && s[0]["StateChangeCount"] == to_string(after_.changes), "%s was told the wrong state, priority or change number", p.p->name.c_str()); }
    for (auto& p : after_.peers) REQ("P07", !p.in || of(o, p.p).in, "a change of state logged %s in", p.p->name.c_str());
    REQ("P07", !ch || after_.changes != o.changes, "a change of state has no number of its own");
    if (leaving) { for (auto& p : o.peers) if (p.sub && !p.forked && c) REQ("P07", to(p.p, "TRANSACTION").size() == 1, "a leader stopped leading without broadcasting its last commit to %s", p.p->name.c_str()); for (auto& p : after_.peers) REQ("P07", !p.sub, "%s is still subscribed to a node that stopped leading", p.p->name.c_str()); if (nw == S::SEARCHING) REQ("P07", !en, "a node that stopped leading can still commit"); for (size_t i = 1; i < sent_.size(); i++) if (sent_[i].m.methodLine == "TRANSACTION") REQ("P07", sent_[i - 1].m.methodLine == "TRANSACTION", "the change was announced before the last commit was broadcast"); }
    if (ch && nw != S::SEARCHING) REQ("P07", en, "commits stay disabled in %s", nm(nw));
    if (ch && !leaving && nw == S::SEARCHING) REQ("P07", en, "commits were disabled though the node was not leading");
    if (ch && nw == S::LEADING) REQ("P07", n->_db._sharedData._committedTransactions.empty() && after_.lastSent == after_.count, "a new leader would broadcast what it did not commit as leader");
    if (ch && (from == S::FOLLOWING || nw < S::SUBSCRIBING)) REQ("P07", !after_.lead, "a node that does not follow still has a leader");
    if (ch && from == S::FOLLOWING) REQ("P07", !after_.queued && !n->_replicateThread && !n->_replicateThreadShouldExitTime, "a node that stopped following kept replication state");
    n->_db._sharedData._committedTransactions.clear();
}
static void stepDisconnect(World* w) {
    S st = (S) (1 + R.below(8)); if (R.p(50)) st = (S) (4 + R.below(3)); randomise(w, st, true); SQLiteNode* n = N; if (n->_peerList.empty()) return; SQLitePeer* q = n->_peerList[R.below(n->_peerList.size())]; if (R.p(50)) q->loggedIn = true;
    start_("_onDisconnect(" + q->name + ")"); n->_onDisconnect(q); finish_(); const Snap& o = before_;
    auto of_ = [&](const PeerSnap& p) { return p.p != q && full(p); }; auto oc = [&](const PeerSnap& p) { return of_(p) && p.in; }; bool lost = 2 * cnt(o, oc) < cnt(o, of_);
    if (leadish(st) && lost) REQ("P07", after_.state == S::SEARCHING, "a node that lost its quorum is still %s", nm(after_.state));
    if (leadish(st) && !lost && q != o.lead && q != o.sync) REQ("P07", after_.state == st, "a node that kept its quorum stopped being %s", nm(st));
    if (q == o.lead) REQ("P07", after_.state == S::SEARCHING && !after_.lead, "a follower that lost its leader goes on");
    if (q == o.sync) REQ("P07", after_.state == S::SEARCHING && !after_.sync, "a node that lost its synchronization source goes on");
    REQ("P07", after_.state == st || after_.state == S::SEARCHING, "a disconnection led to %s", nm(after_.state));
    if (leadish(st) && lost && st != S::STANDINGUP) { bool can = N->_db._sharedData._commitEnabled; REQ("P07", !can, "a leader without quorum can still commit"); }
}
static void stepMajority(World* w) {
    randomise(w, S::LEADING, true); start_("_majoritySubscribed()"); bool r = N->majorityOfFollowersSubscribed(); const Snap& o = before_; bool want = 2 * cnt(o, [](const PeerSnap& p) { return full(p) && p.sub; }) >= cnt(o, full);
    REQ("P07", r == want, "the majority test says %d", r); REQ("P10", r == want, "the majority test says %d", r);
}
static void stepStandup(World* w) { // STATE / LOGIN announcing STANDINGUP, and the answer
    S st = (S) (1 + R.below(8)); if (R.p(30)) st = (S) (4 + R.below(3)); randomise(w, st, true); SQLiteNode* n = N; if (n->_peerList.empty()) return; SQLitePeer* q = n->_peerList[R.below(n->_peerList.size())]; if (R.p(60)) for (auto p : n->_peerList) if (p != q) p->state = R.p(50) ? S::WAITING : S::FOLLOWING; if (R.p(80)) q->forked = false;
    SData m("STATE"); bool withCount = R.p(90); if (withCount) m["StateChangeCount"] = to_string(R.below(1000)); start_("_sendStandupResponse(" + q->name + ")"); n->_sendStandupResponse(q, m); finish_(); const Snap& o = before_; auto& p = of(o, q); auto a = to(q, "STANDUP_RESPONSE");
    if (p.forked) { REQ("P10", a.empty(), "a forked peer was answered"); REQ("P09", a.empty(), "a forked peer was answered"); return; }
    REQ("P10", a.size() == 1, "%zu answers were sent", a.size()); bool yes = SIEquals(a[0]["Response"], "approve"), lead = leadish(st), contest = false; for (auto& x : o.peers) if (x.p != q && leadish(x.state)) contest = true;
    REQ("P10", a[0]["StateChangeCount"] == (withCount ? m["StateChangeCount"] : ""), "the answer names another attempt");
    REQ("P10", !yes || !p.perma, "a permafollower was approved"); REQ("P10", !yes || !lead, "a node in %s approved another leader", nm(st)); REQ("P10", !yes || !contest, "approved while another peer leads or is standing up or down");
    REQ("P10", p.perma || lead || contest || yes, "an uncontested request was denied"); bool hi = p.prio > o.prio;
    if (!p.perma && hi && st == S::LEADING) REQ("P10", after_.state == S::STANDINGDOWN, "a leader did not stand down for a peer of higher priority");
    if (!p.perma && hi && st == S::STANDINGUP) REQ("P10", after_.state == S::SEARCHING, "a node standing up did not give way to a peer of higher priority");
    if (p.perma || !lead) REQ("P10", after_.state == st, "answering changed the node's state to %s", nm(after_.state));
}
static void stepMessage(World* w) {
    static const char* kinds[] = {"STATE", "STANDUP_RESPONSE", "FORKED", "TRANSACTION", "SUBSCRIBE", "SUBSCRIPTION_APPROVED", "SYNCHRONIZE_RESPONSE", "LOGIN", "PING", "SYNCHRONIZE", "FOLLOWER_STATUS", "FOO"}; int kk = R.below(pid_ == "P11" ? 8 : 12); if (pid_ == "P11") kk = 7; if (pid_ == "P10" && R.p(60)) kk = R.p(50) ? 0 : 7; if (pid_ == "P06") kk = 1; if (pid_ == "P08" && R.p(70)) kk = 3 + R.below(4); string kind = kinds[kk];
    S st = (S) (1 + R.below(8)); if (kind == "STANDUP_RESPONSE" && R.p(70)) st = S::STANDINGUP; if (kind == "TRANSACTION" && R.p(70)) st = S::FOLLOWING; if (kind == "SUBSCRIBE" && R.p(70)) st = S::LEADING; if (kind == "SYNCHRONIZE_RESPONSE" && R.p(70)) st = S::SYNCHRONIZING; if (kind == "SUBSCRIPTION_APPROVED" && R.p(70)) st = S::SUBSCRIBING;
    bool real = kind == "LOGIN" || kind == "SUBSCRIBE" || kind == "SYNCHRONIZE"; randomise(w, st, !real); SQLiteNode* n = N; if (n->_peerList.empty()) return; SQLitePeer* q = n->_peerList[R.below(n->_peerList.size())]; if (R.p(70)) q->forked = false; if (R.p(80)) q->loggedIn = kind != "LOGIN"; if (R.p(50) && n->_leadPeer) q = n->_leadPeer; if (R.p(70) && n->_syncPeer) q = n->_syncPeer;
    SData m = msg(kind.c_str(), w, q); uint64_t cc = real ? R.below(w->real + 3) : (uint64_t) R.below(40); m["CommitCount"] = to_string(cc); bool right = cc && cc <= w->real && R.p(60); m["Hash"] = right ? w->hist[cc - 1].second : (cc == 0 && R.p(80)) || R.p(10) ? "" : "bogus"; if (R.p(4)) m.erase("CommitCount"); if (R.p(4)) m.erase("Hash");
    bool wf = m.isSet("CommitCount") && m.isSet("Hash"); S ns = anyState(); int pr = anyPrio(), ver = R.below(2); string answer = R.p(60) ? "approve" : R.p(50) ? "deny" : R.p(50) ? "APPROVE" : "approved"; int at = R.p(70) ? n->_stateChangeCount : n->_stateChangeCount + 1 - 2 * R.below(2);
    if (pid_ == "P10" && R.p(50)) ns = S::STANDINGUP;
    if (kind == "STATE" || kind == "LOGIN") { if (R.p(95)) m["State"] = nm(ns); if (R.p(95)) m["Priority"] = to_string(pr); m["StateChangeCount"] = "7"; if (R.p(95)) m["Version"] = ver ? "1.0" : "2.0"; }
    if (kind == "STANDUP_RESPONSE") { if (R.p(95)) m["StateChangeCount"] = to_string(at); if (R.p(95)) m["Response"] = answer; }
    if (kind == "TRANSACTION") { m["NewCount"] = to_string(R.below(40)); m["NewHash"] = "H" + to_string(R.below(9)); m["ID"] = m["NewCount"]; m.content = "INSERT INTO t VALUES (7);"; if (R.p(50)) n->_replicateQueue.push({q, SData("FIRST")}); n->_replicateThread = (thread*) 8; if (R.p(10)) n->_replicateThreadShouldExitTime = 5; }
    bool mismatch = kind == "SYNCHRONIZE_RESPONSE" && R.p(30); if (mismatch) { m["hashMismatchValue"] = "xx"; m["hashMismatchNumber"] = to_string(1 + R.below(max<uint64_t>(1, w->real))); if (!w->real) return; } else if (kind == "SYNCHRONIZE_RESPONSE" || kind == "SUBSCRIPTION_APPROVED") { if (R.p(80)) m["NumCommits"] = R.p(60) ? "0" : "1"; if (R.p(10)) m["ShuttingDown"] = "true"; }
    int nodeChanges = n->_stateChangeCount; start_(kind + " from " + q->name); for (auto& [k, v] : m.nameValueMap) what_ += " " + k + "=" + v; auto& p0 = of(before_, q); PeerSnap p = p0; const Snap& o = before_; bool wouldFork = !p.forked && wf && p.in && kind == "FORKED"; uint64_t eff = cc;
    bool loginMismatch = kind == "LOGIN" && !p.forked && wf && !p.in && m.isSet("Priority") && m.isSet("State") && m.isSet("Version") && !m["Hash"].empty() && cc <= w->real && m["Hash"] != (cc ? w->hist[cc - 1].second : "");
    bool selfPrio = o.prio != -1 && o.prio != 0 && o.prio != 1 && pr == o.prio && m.isSet("Priority"); if (selfPrio) loginMismatch = false; bool mm = mismatch && !p.forked && p.in && wf && st == S::SYNCHRONIZING;
    if (wouldFork || loginMismatch || mm) { Snap s2 = o; if (loginMismatch) for (auto& x : s2.peers) if (x.p == q) x.perma = pr == 0; if (mustDie(s2, q)) { if (on("P09") && R.p(25)) { bool d = dies([&] { n->_onMESSAGE(q, m); }); REQ("P09", d, "a node forked from half the cluster or more goes on"); } n->_replicateThread = nullptr; return; } }
    n->_onMESSAGE(q, m); if (kind == "SYNCHRONIZE") for (int i = 0; i < 20000 && n->_pendingSynchronizeResponses; i++) usleep(500);
    finish_(); bool fakeThread = n->_replicateThread == (thread*) 8; n->_replicateThread = nullptr; (void) fakeThread; auto& pa = of(after_, q); auto chg = [&] { string a = show(before_), b = show(after_); return a != b; };
    if (p.forked && kind != "PING") { REQ("P09", !chg() && sent_.empty(), "a message from a forked peer had an effect"); return; }
    for (auto& s : sent_) if (kind != "FORKED" && !loginMismatch && s.m.methodLine != "PONG") REQ("P09", !of(o, s.p).forked, "a message was sent to the forked peer %s", s.p->name.c_str());
    for (auto& t : trs_) { REQ("P06", t.to != S::LEADING && t.to != S::STANDINGUP, "the message made the node go %s", nm(t.to)); REQ("P08", t.to != S::FOLLOWING || (kind == "SUBSCRIPTION_APPROVED" && st == S::SUBSCRIBING && q == o.lead && p.in), "the node follows without having been caught up by its leader"); }
    bool okHead = wf && p.in;
    if (kind == "STANDUP_RESPONSE") {
        bool became = pa.resp == RSP::APPROVE && p.resp != RSP::APPROVE; long atv = m.isSet("StateChangeCount") ? at : 0;
        REQ("P06", !became || (st == S::STANDINGUP && p.in && SIEquals(m["Response"], "approve")), "something that is no approval of a logged-in peer counts as one"); REQ("P06", pa.resp == p.resp || atv == nodeChanges, "an answer to another attempt was counted");
        if (okHead && st == S::STANDINGUP && m.isSet("Response") && atv == nodeChanges && !SIEquals(m["Response"], "approve")) REQ("P06", pa.resp == RSP::DENY, "a denial was not counted");
        if (okHead && st == S::STANDINGUP && m.isSet("Response") && atv == nodeChanges && SIEquals(m["Response"], "approve")) REQ("P06", pa.resp == RSP::APPROVE, "an approval was not counted");
    } else for (auto& x : after_.peers) REQ("P06", x.resp == of(o, x.p).resp || (x.resp == RSP::NONE), "a %s message counts as an answer", kind.c_str());
    if (kind == "STATE" && okHead && m.isSet("State") && m.isSet("Priority")) {
        REQ("P10", pa.prio == pr && pa.perma == (pr == 0) && pa.state == ns, "the announced state and priority were not recorded"); if (ns == S::SEARCHING && p.state != ns) REQ("P10", !pa.sub, "a peer that went searching is still a follower");
        REQ("P10", to(q, "STANDUP_RESPONSE").size() == (ns == S::STANDINGUP && p.state != ns ? 1u : 0u), "a peer that started standing up was answered %zu times", to(q, "STANDUP_RESPONSE").size());
        if (!(ns == S::STANDINGUP && p.state != ns)) REQ("P10", after_.state == o.state, "an announcement changed the node's state");
    }
    if (kind == "TRANSACTION") {
        bool ok = okHead && st == S::FOLLOWING && !n->_replicateThreadShouldExitTime; REQ("P08", after_.queued == o.queued + (ok ? 1 : 0), "%zu transactions are queued, %zu were before", after_.queued, o.queued);
        if (ok) { auto qq = n->_replicateQueue; if (o.queued) { REQ("P08", qq.front().second.methodLine == "FIRST", "a transaction was queued ahead of an earlier one"); qq.pop(); } REQ("P08", qq.front().second.content == m.content && qq.front().second["NewHash"] == m["NewHash"] && qq.front().second["NewCount"] == m["NewCount"], "what was queued is not the transaction received"); }
        n->_replicateThreadShouldExitTime = 0;
    }
    if (kind == "SUBSCRIBE") { bool nw = pa.sub && !p.sub; REQ("P03", !nw || (st == S::LEADING && p.in), "a follower was taken by a node that does not lead or from a peer not logged in"); auto a = to(q, "SUBSCRIPTION_APPROVED"); REQ("P03", !nw || a.size() == 1, "a new follower was not sent what it lacks"); if (a.size() && !shut_.size()) REQ("P03", pa.sub, "a peer told it may follow is not sent later transactions"); }
    if (kind == "LOGIN") {
        bool acc = pa.in && !p.in; REQ("P09", !acc || (!pa.forked && !loginMismatch), "a forked peer was logged in"); if (loginMismatch) { REQ("P09", pa.forked && to(q, "FORKED").size() == 1, "a forked peer was not marked or not told"); }
        if (acc) REQ("P10", to(q, "STANDUP_RESPONSE").size() == (ns == S::STANDINGUP ? 1u : 0u), "a peer logging in while standing up was answered %zu times", to(q, "STANDUP_RESPONSE").size());
        REQ("P11", !acc || !selfPrio, "a peer with our own priority was logged in"); if (wf && !p.in && m.isSet("Priority") && m.isSet("State") && m.isSet("Version") && selfPrio) { REQ("P11", count(shut_.begin(), shut_.end(), q) == 1, "a peer with our priority was not disconnected"); }
    }
    if (kind == "FORKED" && okHead) { REQ("P09", pa.forked, "a peer that says we forked is not marked"); if (q == o.lead) REQ("P09", !after_.lead && after_.state == S::SEARCHING, "a node goes on following a leader it forked from"); if (q == o.sync) REQ("P09", !after_.sync && after_.state != S::SYNCHRONIZING, "a node goes on synchronizing from a peer it forked from"); }
    if (mm) REQ("P09", pa.forked, "a synchronization peer that reports another hash is not marked as forked");
    if (kind == "SYNCHRONIZE_RESPONSE" || kind == "SUBSCRIPTION_APPROVED") REQ("P08", after_.count == o.count, "commits appeared from an empty answer");
    if (kind == "SUBSCRIPTION_APPROVED" && okHead && st == S::SUBSCRIBING && q == o.lead) REQ("P08", (after_.state == S::FOLLOWING) == (m["NumCommits"] == "0" && !m.isSet("ShuttingDown")), "the node is %s after the answer of its leader", nm(after_.state));
    if (kind == "SYNCHRONIZE_RESPONSE" && okHead && st == S::SYNCHRONIZING && q == o.sync && !mismatch && after_.state == S::WAITING) REQ("P08", o.count == eff, "the node is done synchronizing at commit %llu, its source is at %llu", (unsigned long long) o.count, (unsigned long long) eff);
}
static void stepSend(World* w) {
    randomise(w, (S) (1 + R.below(8)), true); SQLiteNode* n = N; bool sub = R.p(50); SData m("HELLO"); m["k"] = "v" + to_string(R.below(9)); m.content = "body"; start_(string("_sendToAllPeers(") + (sub ? "subscribed only" : "all") + ")"); n->_sendToAllPeers(m, sub); const Snap o = before_;
    for (auto& p : o.peers) { auto a = to(p.p); bool want = !p.forked && (!sub || p.sub); REQ("P03", a.size() == (want ? 1u : 0u), "%s got %zu copies of a broadcast", p.p->name.c_str(), a.size()); REQ("P09", !p.forked || a.empty(), "a broadcast went to a forked peer"); if (a.size()) REQ("P03", a[0].methodLine == "HELLO" && a[0].content == "body" && a[0]["k"] == m["k"], "%s got another message than the one broadcast", p.p->name.c_str()); }
    if (n->_peerList.empty()) return; SQLitePeer* q = n->_peerList[R.below(n->_peerList.size())]; start_("_sendToPeer(" + q->name + ")"); n->_sendToPeer(q, m); REQ("P03", sent_.size() == (q->forked ? 0u : 1u) && (sent_.empty() || (sent_[0].p == q && sent_[0].m.content == "body" && sent_[0].m["k"] == m["k"])), "a message to one peer was sent %zu times", sent_.size()); REQ("P09", !q->forked || sent_.empty(), "a message went to a forked peer");
}
static void stepSyncPeer(World* w) {
    randomise(w, S::SYNCHRONIZING, true); SQLiteNode* n = N; start_("_updateSyncPeer()"); n->_updateSyncPeer(); finish_(); auto us = [&](const PeerSnap& p) { return p.in && !p.forked && p.count > before_.count; };
    if (after_.sync) REQ("P09", us(of(before_, after_.sync)), "the synchronization source is forked, offline or has nothing to give"); else REQ("P09", !cnt(before_, us), "no synchronization source was chosen though there is one");
}
static void stepDie(World* w) {
    randomise(w, S::SEARCHING, true); for (auto p : N->_peerList) p->forked = R.p(50); start_("_dieIfForkedFromCluster()"); bool want = mustDie(before_, nullptr), d = dies([] { N->_dieIfForkedFromCluster(); }); REQ("P09", d || !want, "a node forked from half the cluster or more goes on"); REQ("P09", want || !d, "a node forked from less than half the cluster ended itself");
}
static void stepPriority(World* w) {
    randomise(w, R.p(60) ? (R.p(50) ? S::LEADING : S::FOLLOWING) : (S) (1 + R.below(8)), true); SQLiteNode* n = N; if (R.p(60)) n->_isShuttingDown = false; int np = anyPrio(); if (R.p(60)) for (auto p : n->_peerList) p->permaFollower = R.p(20); start_("setPriority(" + to_string(np) + ")"); int ret = -99; bool threw = false; try { ret = n->setPriority(np); } catch (const SException&) { threw = true; } finish_(); const Snap& o = before_; int k = o.peers.size();
    if (threw) { REQ("P11", show(before_) == show(after_) && sent_.empty(), "a refused priority change had an effect"); return; }
    REQ("P11", np >= 0 && np != 1, "a reserved priority was accepted"); REQ("P11", after_.conf == np && ret == o.conf, "the priority asked for was not recorded or the former one not returned");
    for (auto& p : o.peers) if (p.in && np > 0) REQ("P11", p.prio != np, "%s already has that priority", p.p->name.c_str());
    if (np == 0 && o.prio > 0) REQ("P11", 2 * cnt(o, full) >= k + 1, "the demotion leaves too few full peers");
    bool t = o.prio == -1 || o.prio == 1, ch = after_.conf != o.conf; vector<SData> st; for (auto& p : o.peers) { auto s = to(p.p, "STATE"); size_t mine = 0; for (auto& x : s) if (x["StateChangeCount"] == to_string(o.changes)) { mine++; REQ("P11", x["Priority"] == to_string(np) && x["State"] == nm(o.state), "%s was told the wrong priority or state", p.p->name.c_str()); } REQ("P11", mine == (ch && !t && !p.forked ? 1u : 0u), "%s was told %zu times of the new priority", p.p->name.c_str(), mine); }
    if (t) REQ("P11", after_.prio == o.prio && after_.state == o.state, "a starting or stopping node changed its interim priority");
    if (ch && !t && after_.state == o.state) REQ("P11", after_.prio == np, "the node does not use its new priority");
    bool outranked = false; for (auto& p : o.peers) if (p.in && p.prio > np && p.state == S::FOLLOWING) outranked = true; if (ch && !t && o.state == S::LEADING && outranked) REQ("P11", after_.state == S::STANDINGDOWN, "a leader no longer of highest priority goes on leading");
    if (ch && !t && o.state == S::FOLLOWING && o.lead) { auto& l = of(o, o.lead); if (l.in && l.state == S::LEADING && l.prio < np) REQ("P11", after_.state == S::SEARCHING, "a follower that outranks its leader goes on following"); }
    for (auto& x : trs_) REQ("P11", (x.at.state == S::LEADING && x.to == S::STANDINGDOWN) || (x.at.state == S::FOLLOWING && x.to == S::SEARCHING), "a new priority made a node go from %s to %s", nm(x.at.state), nm(x.to));
}
static void stepOutstanding(World* w) {
    randomise(w, S::LEADING, true); SQLiteNode* n = N; map<uint64_t, pair<string, string>> tx; uint64_t base = R.below(20); n->_lastSentTransactionID = base; start_("_sendOutstandingTransactions()"); for (int i = R.below(5); i > 0; i--) { uint64_t id = base - (R.p(15) && base ? 1 : 0) + R.below(6); tx[id] = {"q" + to_string(id), "h" + to_string(id)}; } n->_db._sharedData._committedTransactions = tx; n->_sendOutstandingTransactions(); finish_(); uint64_t top = base;
    for (auto& p : before_.peers) { auto got = to(p.p, "TRANSACTION"); size_t i = 0; for (auto& [id, t] : tx) if (id > base) { top = max(top, id); if (p.sub && !p.forked) { REQ("P03", i < got.size() && got[i]["NewCount"] == to_string(id) && got[i]["NewHash"] == t.second && got[i]["ID"] == to_string(id) && got[i].content == t.first, "commit %llu was not broadcast to %s as committed", (unsigned long long) id, p.p->name.c_str()); i++; } } REQ("P03", got.size() == i, "%s got %zu transactions instead of %zu", p.p->name.c_str(), got.size(), i); }
    if (!before_.peers.empty()) REQ("P03", after_.lastSent == top, "the last broadcast commit is recorded as %llu", (unsigned long long) after_.lastSent);
}
// ---------------------------------------------------------------- real journals
struct Hist { vector<pair<string, string>> rows; }; static SQLite* leaderDb_; static World *lead_; static vector<pair<string, string>> lhist_;
static string prefixTrouble(SQLite& db, const vector<pair<string, string>>& h, uint64_t own) {
    uint64_t c = db.getCommitCount(); if (c > h.size()) return "it has " + to_string(c) + " commits, its source has " + to_string(h.size());
    for (uint64_t i = 1; i <= c; i++) { string q, x; if (!db.getCommit(i, &q, &x)) return "commit " + to_string(i) + " is missing"; q = BedrockPlugin_Compression::decompress(q); if (q != h[i - 1].first || x != h[i - 1].second) return "commit " + to_string(i) + " is '" + q + "' with hash " + x.substr(0, 8) + ", its source has '" + h[i - 1].first + "' with hash " + h[i - 1].second.substr(0, 8); }
    if (c && db.getCommittedHash() != h[c - 1].second) return "its committed hash is not the hash of its last commit";
    return "";
}
static string dumpT(SQLite& db) { string o; sqlite3_stmt* st; if (sqlite3_prepare_v2(db._db, "SELECT rowid, a FROM t ORDER BY rowid", -1, &st, nullptr)) return "no t"; while (sqlite3_step(st) == SQLITE_ROW) { auto* t = sqlite3_column_text(st, 1); o += to_string(sqlite3_column_int(st, 0)) + "=" + (t ? (const char*) t : "null") + ";"; } sqlite3_finalize(st); return o; }
static int faultAt_ = -1, faultN_ = 0; static void arm(int k) { faultAt_ = k; faultN_ = 0; if (k < 0) shimFault = nullptr; else shimFault = [](const string& s) { if (s.rfind("SELECT", 0) == 0 || s.rfind("PRAGMA", 0) == 0 || s.rfind("ROLLBACK", 0) == 0) return 0; return faultN_++ != faultAt_ ? 0 : s.rfind("COMMIT", 0) == 0 ? SQLITE_BUSY_SNAPSHOT : SQLITE_ERROR; }; }
static bool lockFree(SQLite& db) { bool r = false; thread t([&] { r = db._sharedData.commitLock.try_lock(); if (r) db._sharedData.commitLock.unlock(); }); t.join(); return r; }
static SData applyTo(SData m, uint64_t from) { return m; }
static void replicationCase(int n) {
    const uint64_t L = lhist_.size(); uint64_t start = R.below(L + 1); string d = "f" + to_string(n); N = nullptr; World* w = world(1 + R.below(3), d, 0); SQLiteNode* f = N = w->n; SQLite& db = w->pool->getBase(); SQLitePeer* lp = f->_peerList[0]; what_ = "a follower at commit " + to_string(start) + " of " + to_string(L);
    for (uint64_t i = 0; i < start; i++) { db.beginTransaction(); db.writeUnmodified(lhist_[i].first); if (!db.prepare() || db.commit()) FAIL("setup commit"); } db.popCommittedTransactions();
    before_ = after_ = snap(f); sent_.clear(); trs_.clear();
    // what a leader sends a lagging peer
    SQLiteNode* ln = lead_->n; S ls = R.p(50) ? S::LEADING : S::FOLLOWING; ln->_state = ls; uint64_t last = R.p(60) ? L : start + R.below(L - start + 1); ln->_lastSentTransactionID = last; SQLitePeer* me = ln->_peerList[0]; bool lie = R.p(15) && start; me->setCommit(start, lie ? "bogus" : start ? lhist_[start - 1].second : ""); bool all = R.p(60); SData resp("R"); bool threw = false; uint64_t tgt = ls == S::LEADING ? last : L;
    try { SQLiteNode::_queueSynchronize(ln, me, *leaderDb_, resp, all); } catch (const SException&) { threw = true; }
    what_ += string("; the source (") + nm(ls) + ", last broadcast " + to_string(last) + ") was asked for " + (all ? "everything" : "some commits") + (lie ? " by a peer that forked" : ""); 
    if (!threw) {
        if (lie) { REQ("P03", resp["hashMismatchValue"] == lhist_[start - 1].second && resp["hashMismatchNumber"] == to_string(start) && resp.content.empty(), "a peer whose last commit differs was not told so"); REQ("P09", !resp["hashMismatchValue"].empty() && resp.content.empty(), "a peer whose last commit differs was sent commits"); }
        else {
            REQ("P03", resp["hashMismatchValue"].empty(), "a peer that agrees was told it differs"); REQ("P09", resp["hashMismatchValue"].empty(), "a peer that agrees was told it differs"); const char* c = resp.content.c_str(); int rem = resp.content.size(), k = 0, sz; SData x; while ((sz = x.deserialize(c, rem))) { c += sz; rem -= sz; k++; REQ("P03", x.methodLine == "COMMIT" && x["CommitIndex"] == to_string(start + k) && start + k <= tgt && x["Hash"] == lhist_[start + k - 1].second && BedrockPlugin_Compression::decompress(x.content) == lhist_[start + k - 1].first, "commit %llu was sent as '%s' number %s", (unsigned long long) start + k, x.content.c_str(), x["CommitIndex"].c_str()); }
            REQ("P03", rem == 0 && resp["NumCommits"] == to_string(k), "%d commits were sent, %s announced", k, resp["NumCommits"].c_str()); if (all) REQ("P03", (uint64_t) k == tgt - min(start, tgt), "a new follower was sent %d commits, it lacks %llu", k, (unsigned long long) (tgt - start)); else REQ("P03", start >= tgt || k >= 1, "a synchronizing peer was sent nothing");
        }
    }
    SData full("SUBSCRIPTION_APPROVED"); ln->_state = S::FOLLOWING; me->setCommit(start, start ? lhist_[start - 1].second : ""); SQLiteNode::_queueSynchronize(ln, me, *leaderDb_, full, true); vector<SData> commits; { const char* c = full.content.c_str(); int rem = full.content.size(), sz; SData x; while ((sz = x.deserialize(c, rem))) { c += sz; rem -= sz; commits.push_back(x); } }
    // losses, reorderings, corruptions
    int mut = R.below(9), k = commits.size(); string desc = "intact"; int ann = k;
    if (k) { int i = R.below(k), j = R.below(k); switch (mut) { case 0: commits.erase(commits.begin() + i); desc = "commit " + to_string(i) + " missing"; break; case 1: swap(commits[i], commits[j]); desc = "two commits swapped"; break; case 2: commits.insert(commits.begin() + i, commits[j]); desc = "a commit repeated"; break; case 3: commits[i]["Hash"] = "bogus"; desc = "a wrong hash"; break; case 4: commits[i].content = " " + BedrockPlugin_Compression::decompress(commits[i].content); desc = "an altered text"; break; case 5: commits[i]["CommitIndex"] = to_string(commits[i].calcU64("CommitIndex") + (R.p(50) ? 1 : -1)); desc = "a wrong number"; break; case 6: ann = max(0, k + 1 - 2 * R.below(2)); desc = "a wrong count"; break; } }
    int fault = R.p(35) ? R.below(4 + 4 * k) : -1; string fd = fault >= 0 ? ", statement " + to_string(fault) + " fails" : ""; string t0 = dumpT(db); uint64_t c0 = db.getCommitCount();
    if (R.p(50)) {
        SData m("SUBSCRIPTION_APPROVED"); m["NumCommits"] = to_string(ann); for (auto& c : commits) m.content += c.serialize(); f->_state = S::SUBSCRIBING; f->_leadPeer = lp; what_ += "; _recvSynchronize of " + to_string(commits.size()) + " commits with " + desc + fd; arm(fault); bool ok = true; try { f->_recvSynchronize(lp, m); } catch (const SException&) { ok = false; } arm(-1); after_ = snap(f);
        REQ("P08", !db.insideTransaction() && lockFree(db), "synchronizing left a transaction open or the commit lock held"); string tr = prefixTrouble(db, lhist_, start); REQ("P08", tr.empty(), "the follower diverged from its source: %s", tr.c_str()); if (ok) REQ("P08", db.getCommitCount() == c0 + ann, "synchronizing reported success with %llu of %d commits", (unsigned long long) (db.getCommitCount() - c0), ann); if (mut >= 7 && fault < 0 && k) REQ("P08", ok && db.getCommitCount() == L, "an intact answer was refused");
        if (db.getCommitCount() == c0) REQ("P08", dumpT(db) == t0, "the data changed without a commit");
    } else {
        f->_state = R.p(90) ? S::FOLLOWING : (S) (1 + R.below(7)); f->_leadPeer = lp; for (auto& c : commits) { SData m("TRANSACTION"); m["ID"] = m["NewCount"] = c["CommitIndex"]; m["NewHash"] = c["Hash"]; m["leaderSendTime"] = "1"; m.content = c.content; if (R.p(3)) m.erase("NewHash"); f->_replicateQueue.push({lp, m}); }
        if (R.p(15)) f->_replicateQueue.push({lp, SData("NONSENSE")}); f->_replicateThreadShouldExitTime = STimeNow() + 60000000; f->_priority = R.p(70) ? 100 : 0; what_ += string("; _replicate() in ") + nm(f->_state) + " of " + to_string(commits.size()) + " transactions with " + desc + fd; bool was = f->_state == S::FOLLOWING; arm(fault); bool ok = true; try { f->_replicate(); } catch (const SException&) { ok = false; } arm(-1); f->_replicateThreadShouldExitTime = 0; after_ = snap(f);
        string tr = prefixTrouble(db, lhist_, start); REQ("P08", tr.empty(), "the follower diverged from its leader: %s", tr.c_str()); REQ("P08", was || db.getCommitCount() == c0, "a node that does not follow replicated a transaction"); if (ok) { REQ("P08", lockFree(db), "replication left the commit lock held"); if (was && desc != "a repeated commit") REQ("P08", db.getCommitCount() == c0 + commits.size(), "replication reported success with %llu of %zu transactions", (unsigned long long) (db.getCommitCount() - c0), commits.size()); }
        if (mut >= 7 && fault < 0 && was && ok) REQ("P08", db.getCommitCount() == L, "intact transactions were not all applied"); if (db.getCommitCount() == L && was) REQ("P08", dumpT(db) == dumpT(*leaderDb_), "the follower's data differs from the leader's after the same commits");
    }
}
int main(int argc, char** argv) {
    pid_ = argv[1]; string tier = argv[2]; R = Rng(argc > 3 ? atoll(argv[3]) : 1); dir_ = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"; shimDeathNote = [] { return story(); }; int steps = tier == "thorough" ? 1000000 : 60000, cases = tier == "thorough" ? 800 : 150;
    vector<World*> ws; for (int i = 0; i <= 6; i++) { N = nullptr; ws.push_back(world(i, "n" + to_string(i), 6)); }
    typedef void (*Op)(World*); vector<Op> ops; auto add = [&](Op f, int n) { for (int i = 0; i < n; i++) ops.push_back(f); }; auto upd = [](World* w) { stepUpdate(w, (S) (1 + R.below(8))); };
    if (on("P03")) { add(stepSend, 2); add(stepOutstanding, 2); add(upd, 1); add(stepMessage, 1); }
    if (on("P06")) { add([](World* w) { stepUpdate(w, R.p(50) ? S::WAITING : R.p(50) ? S::STANDINGUP : (S) (1 + R.below(8))); }, 4); add(stepMessage, 2); }
    if (on("P07")) { add(stepChange, 2); add(stepDisconnect, 3); add(stepMajority, 1); }
    if (on("P08")) add(stepMessage, 1);
    if (on("P09")) { add(stepMessage, 3); add(stepSyncPeer, 1); add(stepSend, 1); add(stepStandup, 1); add(upd, 1); }
    if (on("P10")) { add(stepStandup, 2); add(stepMessage, 2); add(stepMajority, 1); }
    if (on("P11")) { add(stepPriority, 3); add(stepMessage, 1); }
    for (int i = 0; i < steps; i++) ops[R.below(ops.size())](ws[R.below(ws.size())]);
    int dc = 0; if (on("P09")) for (int i = 0; i < (tier == "thorough" ? 600 : 80); i++, dc++) stepDie(ws[R.below(ws.size())]);
    if (on("P08") || on("P03") || on("P09")) {
        N = nullptr; for (int z = 0; z < 2; z++) { }
        N = nullptr; lead_ = world(2, "leader", 0); leaderDb_ = &lead_->pool->getBase(); for (int i = 0; i < 9; i++) { string q = i == 0 ? "CREATE TABLE t (a);" : i % 4 == 3 ? "UPDATE t SET a = a || 'x';" : "INSERT INTO t VALUES ('" + to_string(i) + "');INSERT INTO t VALUES (2);"; leaderDb_->beginTransaction(); leaderDb_->writeUnmodified(q); if (!leaderDb_->prepare() || leaderDb_->commit()) FAIL("setup"); lhist_.push_back({q, leaderDb_->getCommittedHash()}); } leaderDb_->popCommittedTransactions();
        for (int i = 0; i < cases; i++) replicationCase(i);
    } else cases = 0;
    printf("COUNT %d steps from random situations, %d replication cases, %d fork decisions\n", steps, cases, dc); fflush(stdout); _exit(0);
}
