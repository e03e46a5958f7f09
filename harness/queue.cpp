// Replay / failing-input search for P14 and P15: random operations on the real command queues, compared after every step with
// oracles written from the property statements; threads that put and take at once; rate limits against a model under a set clock.
#include <bits/stdc++.h>
#include <signal.h>
#include <libstuff/libstuff.h>
#define private public
#define protected public
#include <BedrockCommandQueue.h>
#include <BedrockBlockingCommandQueue.h>
#include <BedrockCommand.h>
#undef private
#undef protected
#include "shim.h"
#include "util.h"
using namespace std;
extern "C" int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; }
static string pid_; static Rng R(1); static vector<string> steps_;
static bool on(const char* p) { return pid_ == p || pid_ == "all"; }
static string story() { string o; size_t b = steps_.size() > 60 ? steps_.size() - 60 : 0; for (size_t i = b; i < steps_.size(); i++) o += "\n    " + steps_[i]; return o; }
#define REQ(P, c, ...) do { if (on(P) && !(c)) { printf("VIOLATED: %s: ", P); printf(__VA_ARGS__); printf("\n  history:%s\n", story().c_str()); fflush(stdout); _exit(1); } } while (0)
static void note(const string& s) { steps_.push_back(s); }
static void hung(int) { const char m[] = "\nVIOLATED: P14: an operation on the queue never returned\n"; if (on("P14")) { (void) !write(1, m, sizeof(m) - 1); printf("  history:%s\n", story().c_str()); fflush(stdout); _exit(1); } _exit(0); }
static atomic<int> live_(0);
struct Cmd : BedrockCommand { int id; uint64_t seq = 0; Cmd(int i, const string& name) : BedrockCommand(SQLiteCommand(SData(name)), nullptr), id(i) { live_++; } ~Cmd() { live_--; } };
static int timings(BedrockCommand& c, BedrockCommand::TIMING_INFO t) { int n = 0; for (auto& x : c.timingInfo) n += get<0>(x) == t; return n; }
struct E { uint64_t sched, to, seq; int id; Cmd* c; };
struct Blocking : BedrockBlockingCommandQueue { uint64_t clock = 1'000'000'000'000ull; uint64_t _now() const override { return clock; } };
// one queue, one thread
static void sequence(bool blocking) {
    steps_.clear(); unique_ptr<BedrockCommandQueue> q; Blocking* bq = nullptr; if (blocking) { auto x = make_unique<Blocking>(); bq = x.get(); q = move(x); } else q = make_unique<BedrockCommandQueue>();
    auto tm = blocking ? BedrockCommand::QUEUE_BLOCKING : BedrockCommand::QUEUE_WORKER;
    vector<E> m; uint64_t seq = 0; int ids = 0; uint64_t base = STimeNow(); const int64_t S = 100'000'000; set<string> blocked; // steps of 100 s: every time is far from now
    int live0 = live_;
    for (int step = 0; step < 40; step++) {
        alarm(30); int op = R.below(100);
        if (op < 45) {
            string name = string("N") + char('a' + R.below(3)); auto u = make_unique<Cmd>(ids++, name); Cmd* c = u.get(); uint64_t to = R.p(25) ? base - S * (1 + R.below(3)) : base + S * (1 + R.below(4)); uint64_t sc = R.p(20) ? base + S * (1 + R.below(3)) : base - S * (1 + R.below(4)); c->_timeout = to; if (R.p(40)) c->blockingQueueRateLimitIdentifier = string("I") + char('a' + R.below(3)); bool two = R.p(40); const_cast<uint64_t&>(c->scheduledTime) = two ? base + 7 : sc;
            unique_ptr<BedrockCommand> x = move(u); bool refuse = blocking && !two && (blocked.count(c->blockingQueueRateLimitIdentifier) || blocked.count(name)), threw = false; string why;
            note("push #" + to_string(c->id) + " " + name + "/" + c->blockingQueueRateLimitIdentifier + " scheduled " + to_string((int64_t) (sc - base) / S) + " timeout " + to_string((int64_t) (to - base) / S));
            try { if (two) q->push(move(x), sc); else q->push(move(x)); } catch (const SException& e) { threw = true; why = e.method; }
            REQ("P14", threw == refuse, "a command is %s", refuse ? "queued although it is rate limited" : "refused although it is not rate limited");
            if (threw) { REQ("P14", why.rfind("503 ", 0) == 0, "refused with '%s'", why.c_str()); REQ("P14", x.get() == c, "a refused command does not stay with the caller"); }
            else { REQ("P14", !x, "the queued command stays with the caller"); m.push_back({sc, to, seq++, c->id, c}); REQ("P14", c->_inProgressTiming != make_tuple(BedrockCommand::INVALID, (uint64_t) 0, (uint64_t) 0) && get<0>(c->_inProgressTiming) == tm, "waiting time is not started"); }
        } else if (op < 78) {
            uint64_t wait = 200 + R.below(1200); unique_ptr<BedrockCommand> u; auto t0 = chrono::steady_clock::now(); bool due = false; for (auto& e : m) due |= e.sched <= base || e.to <= base;
            try { u = q->get(wait, R.p(5)); } catch (const BedrockCommandQueue::timeout_error&) {} catch (...) { REQ("P14", false, "get throws something else"); }
            if (!u) { note("get: nothing"); REQ("P14", !due, "nothing is returned although a command is due"); REQ("P14", chrono::steady_clock::now() - t0 >= chrono::microseconds(wait), "gave up before the time was over"); }
            else {
                Cmd* c = (Cmd*) u.get(); note("get: #" + to_string(c->id)); auto it = find_if(m.begin(), m.end(), [&](E& e) { return e.c == c; }); REQ("P14", it != m.end(), "returns a command that is not queued");
                if (it != m.end()) {
                    E got = *it; uint64_t minTo = ~0ull; for (auto& e : m) minTo = min(minTo, e.to);
                    if (minTo <= base) REQ("P14", got.to == minTo, "#%d is returned before the command that expired first", got.id);
                    else { REQ("P14", got.sched <= base, "#%d is returned before its scheduled time", got.id); for (auto& e : m) REQ("P14", !(e.sched < got.sched || (e.sched == got.sched && e.seq < got.seq)), "#%d is returned before #%d", got.id, e.id); }
                    m.erase(it);
                }
                REQ("P14", timings(*c, tm) == 1 && get<0>(c->_inProgressTiming) == BedrockCommand::INVALID, "waiting time is not stopped");
                bool b = blocking && (blocked.count(c->blockingQueueRateLimitIdentifier) || blocked.count(c->request.methodLine)); REQ("P14", c->complete == b && c->response.methodLine == (b ? "503 Blocking queue rate limited (time)" : ""), "a command taken from the queue is %s with answer '%s'", c->complete ? "complete" : "not complete", c->response.methodLine.c_str());
            }
        } else if (op < 84) {
            note("getAll"); auto all = q->getAll(); stable_sort(m.begin(), m.end(), [](const E& a, const E& b) { return a.sched < b.sched; }); REQ("P14", all.size() == m.size(), "%zu commands are returned of %zu", all.size(), m.size()); size_t i = 0; for (auto& u : all) { REQ("P14", i < m.size() && u.get() == m[i].c, "the commands are returned out of order"); REQ("P14", u && timings(*u, tm) == 1, "waiting time is not stopped"); i++; } m.clear();
        } else if (op < 86) { note("clear"); if (bq) { bq->clear(); blocked.clear(); } else q->clear(); m.clear(); }
        else if (op < 93) {
            int k = R.below(4); note("abandon more than " + to_string(k) + " steps ahead"); q->abandonFutureCommands(k * 100000 + 50000); uint64_t lim = base + k * S + S / 2; m.erase(remove_if(m.begin(), m.end(), [&](E& e) { return e.sched >= lim; }), m.end());
        } else if (blocking) {
            int w = R.below(3); string k = (w ? "I" : "N") + string(1, char('a' + R.below(3))); note("block or unblock " + k);
            if (blocked.empty() || R.p(50)) { bq->recordExecutionTime(w ? k : "", w ? "other" : k, 1'000'000'000); bq->recordExecutionTime("", "x", 1); blocked.insert(k); if (w) blocked.insert("other"); } else if (R.p(50)) { bq->clearRateLimits(); blocked.clear(); } else { bq->clock += 1'000'000'000; blocked.clear(); }
        }
        REQ("P14", q->size() == m.size(), "the size is %zu with %zu commands queued", q->size(), m.size()); REQ("P14", q->empty() == m.empty(), "empty is misreported");
        REQ("P14", q->_lookupByTimeout.size() == m.size(), "%zu timeout entries for %zu commands", q->_lookupByTimeout.size(), m.size());
        auto l = q->getRequestMethodLines(); vector<E> s = m; stable_sort(s.begin(), s.end(), [](const E& a, const E& b) { return a.sched < b.sched; }); size_t i = 0; bool same = l.size() == s.size(); for (auto& x : l) { if (same) same = x == s[i].c->request.methodLine; i++; } REQ("P14", same, "the method lines of the queued commands are misreported");
        REQ("P14", live_ - live0 == (int) m.size(), "%d commands exist with %zu queued", live_ - live0, m.size());
    }
    alarm(0);
}
// threads that put and take at once: every command is taken exactly once, and a waiting thread gets it
static void threads(int n) {
    steps_.clear(); note("threads put and take " + to_string(n) + " commands"); alarm(60); BedrockCommandQueue q; vector<atomic<int>> seen(n); for (auto& s : seen) s = 0; atomic<int> got(0), put(0); vector<thread> ts; uint64_t base = STimeNow();
    for (int t = 0; t < 3; t++) ts.emplace_back([&, t] { Rng r(t + 77); for (int i = t; i < n; i += 3) { auto u = make_unique<Cmd>(i, "N"); if (r.p(30)) u->_timeout = base - 1000; unique_ptr<BedrockCommand> x = move(u); if (r.p(50)) q.push(move(x)); else q.push(move(x), base - r.below(5)); put++; if (r.p(5)) usleep(300); } });
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { while (got < n) { try { auto u = q.get(t == 3 ? 3000 : 100000); REQ("P14", !!u, "an empty command is taken"); seen[((Cmd*) u.get())->id]++; got++; } catch (const BedrockCommandQueue::timeout_error&) { if (t != 3) REQ("P14", put - got < 200, "waiting threads are not woken"); } } });
    for (auto& t : ts) t.join(); alarm(0);
    for (int i = 0; i < n; i++) REQ("P14", seen[i] == 1, "command %d is taken %d times", i, (int) seen[i]); REQ("P14", q.empty() && q._lookupByTimeout.empty(), "the queue is not empty");
    // a thread that waits without limit is woken by a push
    for (int k = 0; k < 5; k++) { alarm(30); atomic<int> have(-1); thread w([&] { auto u = q.get(); have = ((Cmd*) u.get())->id; }); usleep(2000); unique_ptr<BedrockCommand> x = make_unique<Cmd>(k, "N"); auto t0 = chrono::steady_clock::now(); q.push(move(x)); w.join(); alarm(0); REQ("P14", have == k, "a waiting thread got command %d", (int) have); REQ("P14", chrono::steady_clock::now() - t0 < chrono::seconds(20), "a waiting thread is not woken"); }
}
// a command that becomes due during a timed wait is returned by it
static void becomesDue(int n) {
    for (int i = 0; i < n; i++) { steps_.clear(); alarm(30); BedrockCommandQueue q; uint64_t w = 3000 + R.below(5000), now = STimeNow(); auto u = make_unique<Cmd>(i, "N"); bool byDeadline = R.p(50); const_cast<uint64_t&>(u->scheduledTime) = now + (byDeadline ? 3600000000ull : w / 2); u->_timeout = now + (byDeadline ? w / 2 : 3600000000ull); note(string("a command whose ") + (byDeadline ? "deadline passes" : "schedule time comes") + " after half of a wait of " + to_string(w) + " us"); unique_ptr<BedrockCommand> x = move(u); q.push(move(x)); bool got = false; try { got = !!q.get(w); } catch (const BedrockCommandQueue::timeout_error&) {} alarm(0); REQ("P14", got, "nothing is returned although a command is due"); }
}
// ---- rate limits
struct Lim { deque<pair<uint64_t, uint64_t>> s; uint64_t until = 0; };
static void limits() {
    steps_.clear(); Blocking q; map<string, Lim> m[2]; uint64_t win = 180'000'000, th[2] = {20'000'000, 40'000'000}, dur = 60'000'000;
    auto blocked = [&](int d, const string& k) { return !k.empty() && m[d].count(k) && m[d][k].until > q.clock; };
    for (int step = 0; step < 120; step++) {
        int op = R.below(100);
        if (op < 50) {
            string id = R.p(25) ? "" : string("I") + char('a' + R.below(2)), nm = R.p(5) ? "" : string("N") + char('a' + R.below(2)); uint64_t el = (uint64_t) R.below(12) * 1'000'000 + (R.p(30) ? R.below(3) : 0); if (R.p(10)) el *= 40;
            if (R.p(15)) { int d = R.below(2); uint64_t t = 0; const string& k = d ? nm : id; if (m[d].count(k)) for (auto& x : m[d][k].s) if (q.clock - x.first < win) t += min(x.second, win - (q.clock - x.first)); if (th[d] > t) el = th[d] - t + R.below(2); }
            note("record " + id + " " + nm + " " + to_string(el) + " us at " + to_string(q.clock)); q.recordExecutionTime(id, nm, el);
            for (int d = 0; d < 2; d++) { const string& k = d ? nm : id; if (k.empty() || !th[d]) continue; Lim& l = m[d][k]; if (l.until > q.clock) continue; l.s.push_back({q.clock, el}); uint64_t total = 0; deque<pair<uint64_t, uint64_t>> keep; for (auto& x : l.s) { uint64_t age = q.clock - x.first; if (age < win) { keep.push_back(x); total += min(x.second, win - age); } } l.s = keep; if (total > th[d]) l.until = q.clock + dur; }
        } else if (op < 75) { uint64_t t = R.p(50) ? R.below(5) * 1'000'000 : R.p(60) ? R.below(40) * 1'000'000 : R.p(50) ? 60'000'000 - R.below(2) : 180'000'000 - R.below(2); q.clock += t; note("clock +" + to_string(t)); }
        else if (op < 79) { uint64_t v = (uint64_t) R.below(60) * 1'000'000; note("window " + to_string(v)); uint64_t o = q.setWindow(v); REQ("P15", o == win, "the old window is reported as %llu", (unsigned long long) o); win = v; }
        else if (op < 85) { int d = R.below(2); uint64_t v = R.p(30) ? 0 : (uint64_t) R.below(30) * 1'000'000; note("threshold " + to_string(d) + " " + to_string(v)); uint64_t o = d ? q.setCommandThreshold(v) : q.setIdentifierThreshold(v); REQ("P15", o == th[d], "the old threshold is reported as %llu", (unsigned long long) o); th[d] = v; }
        else if (op < 88) { uint64_t v = (uint64_t) R.below(90) * 1'000'000; note("duration " + to_string(v)); uint64_t o = q.setBlockDuration(v); REQ("P15", o == dur, "the old duration is reported as %llu", (unsigned long long) o); dur = v; }
        else if (op < 91) { note("clear limits"); size_t n = q.clearRateLimits(); REQ("P15", n == m[0].size() + m[1].size(), "%zu entries are reported cleared of %zu", n, m[0].size() + m[1].size()); m[0].clear(); m[1].clear(); }
        for (const char* i : {"", "Ia", "Ib", "Na"}) for (const char* n : {"", "Na", "Nb", "Ia"}) { bool e = blocked(0, i) || blocked(1, n), r = q.isBlocked(i, n); REQ("P15", e == r, "identifier '%s' with command '%s' is %s at %llu", i, n, r ? "refused" : "allowed", (unsigned long long) q.clock); }
        STable s = q.getState(); for (int d = 0; d < 2; d++) { set<string> a, b; for (auto& p : m[d]) if (p.second.until > q.clock) a.insert(p.first); for (auto& x : SParseList(s[d ? "blockingBlockedCommands" : "blockingBlockedIdentifiers"])) b.insert(x); REQ("P15", a == b, "the status lists %zu blocked keys of %zu", b.size(), a.size()); REQ("P15", s[d ? "blockingTrackedCommands" : "blockingTrackedIdentifiers"] == to_string(m[d].size()), "the status counts the wrong number of tracked keys"); }
        REQ("P15", s["blockingTimeWindowMS"] == to_string(win / 1000) && s["blockingIdentifierThresholdMS"] == to_string(th[0] / 1000) && s["blockingCommandThresholdMS"] == to_string(th[1] / 1000) && s["blockingBlockDurationMS"] == to_string(dur / 1000), "the status misreports a setting");
        for (int d = 0; d < 2; d++) for (auto& p : m[d]) { auto& st = (d ? q._commandStates : q._identifierStates).states; REQ("P15", st.count(p.first) && st[p.first]->commands.size() == p.second.s.size(), "the samples kept for '%s' are wrong", p.first.c_str()); }
    }
}
static void limitThreads() {
    steps_.clear(); note("threads record, ask, clear and inspect"); alarm(60); BedrockBlockingCommandQueue q; atomic<bool> stop(false); vector<thread> ts;
    for (int t = 0; t < 3; t++) ts.emplace_back([&, t] { Rng r(t + 5); for (int i = 0; i < 3000; i++) q.recordExecutionTime(string("i") + char('a' + r.below(4)), "cmd", 1); });
    ts.emplace_back([&] { while (!stop) { q.isBlocked("ia", "cmd"); q.getState(); } }); ts.emplace_back([&] { for (int i = 0; i < 50; i++) { q.clearRateLimits(); usleep(200); } });
    for (size_t i = 0; i < ts.size(); i++) if (i != 3) ts[i].join(); stop = true; ts[3].join(); alarm(0); q.clearRateLimits();
    for (int t = 0; t < 4; t++) thread([&] { for (int i = 0; i < 5; i++) q.recordExecutionTime("one", "", 1); }).join(); REQ("P15", q._identifierStates.states["one"]->commands.size() == 20, "samples are lost");
}
int main(int argc, char** argv) {
    pid_ = argv[1]; string tier = argv[2]; R = Rng(atoll(argv[3])); signal(SIGALRM, hung); sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); pthread_sigmask(SIG_UNBLOCK, &s, nullptr); shimDeathNote = [] { return "  history:" + story(); };
    bool th = tier == "thorough"; int a = 0, b = 0;
    if (on("P14")) { for (; a < (th ? 5000 : 900); a++) sequence(a % 3 == 2); becomesDue(th ? 2000 : 200); for (int i = 0; i < (th ? 40 : 6); i++) threads(i % 2 ? 300 : 1500); }
    if (on("P15")) { for (; b < (th ? 25000 : 2000); b++) limits(); for (int i = 0; i < (th ? 20 : 3); i++) limitThreads(); }
    printf("COUNT %d queue sequences, %d rate limit sequences\n", a, b); fflush(stdout); _exit(0);
}
