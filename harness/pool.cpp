// Replay / failing-input search for P20: random use of the real handle pool and the real page locks against a model; threads that compete.
#include <bits/stdc++.h>
#include <signal.h>
#include <libstuff/libstuff.h>
#define private public
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>
#include <ConflictLockGuard.h>
#undef private
#include "shim.h"
#include "util.h"
using namespace std;
static string pid_; static Rng R(1); static vector<string> steps_;
static string story() { string o; size_t b = steps_.size() > 50 ? steps_.size() - 50 : 0; for (size_t i = b; i < steps_.size(); i++) o += "\n    " + steps_[i]; return o; }
#define REQ(c, ...) do { if (!(c)) { printf("VIOLATED: P20: "); printf(__VA_ARGS__); printf("\n  history:%s\n", story().c_str()); fflush(stdout); _exit(1); } } while (0)
static void note(const string& s) { steps_.push_back(s); if (steps_.size() > 400) steps_.erase(steps_.begin(), steps_.begin() + 200); }
static const char* phase_ = "an operation";
static void hung(int) { printf("\nVIOLATED: P20: %s never ended\n  history:%s\n", phase_, story().c_str()); fflush(stdout); _exit(1); }
static string S(size_t v) { return to_string(v); }
static string file_;
// one pool, one thread at a time
static void poolSequence(int k) {
    steps_.clear(); size_t max = 2 + R.below(5); SQLitePool pool(max, file_, 1000, 100, 1); note("pool of " + S(max)); map<size_t, SQLite*> known; set<size_t> lent, all; map<size_t, unique_ptr<SQLiteScopedHandle>> scoped;
    auto got = [&](size_t i) { REQ(!lent.count(i), "handle %zu is lent to two users", i); REQ(i < max - 1, "handle %zu is lent by a pool of %zu", i, max); bool fresh = !all.count(i); REQ(!fresh || all.size() == lent.size(), "a new handle is made while another is free"); lent.insert(i); all.insert(i); };
    auto use = [&](size_t i, SQLite& d) { REQ(&d != &pool.getBase(), "the base handle is lent"); auto it = known.find(i); REQ(it == known.end() || it->second == &d, "the handle behind a number changed"); for (auto& [j, p] : known) REQ(j == i || p != &d, "two numbers stand for one handle"); known[i] = &d; };
    for (int s = 0; s < 40; s++) {
        alarm(20); int op = R.below(10);
        if (op < 4 && lent.size() < max - 1) { bool c = R.p(50); phase_ = "asking for a free handle"; size_t i = pool.getIndex(c); note("lent " + S(i)); bool made = !all.count(i); got(i); if (made) REQ(c == !!pool._objects[i], "a new handle is made although it was not asked for, or the other way round"); if (R.p(40)) scoped[i] = make_unique<SQLiteScopedHandle>(pool, i); }
        else if (op < 7 && lent.size()) { auto it = lent.begin(); advance(it, R.below(lent.size())); size_t i = *it; note("use " + S(i)); if (scoped.count(i)) use(i, scoped[i]->db()); else use(i, pool.initializeIndex(i)); }
        else if (lent.size()) {
            auto it = lent.begin(); advance(it, R.below(lent.size())); size_t i = *it; note("return " + S(i) + (scoped.count(i) ? " (scoped)" : "")); if (scoped.count(i)) {
                auto& h = scoped[i]; if (R.p(50)) { h->release(); REQ(pool._availableHandles.count(i) && !pool._inUseHandles.count(i), "a released handle is not available"); if (lent.size() == 1 || R.p(30)) { // it is lent again before the first user's handle object ends
                        size_t j = pool.getIndex(false); lent.erase(i); got(j); if (R.p(50)) h->release(); h.reset(); scoped.erase(i); REQ(pool._inUseHandles.count(j) && !pool._availableHandles.count(j), "a handle is returned twice, the second time while another user has it"); continue; } }
                scoped.erase(i);
            } else pool.returnToPool(i);
            lent.erase(i);
        }
        set<size_t> free_; for (size_t i : all) if (!lent.count(i)) free_.insert(i);
        REQ(pool._inUseHandles == lent, "the handles marked as lent are not those that are lent"); REQ(pool._availableHandles == free_, "the handles marked as available are not those that were returned"); REQ(pool._objects.size() == max, "room for handles changed");
        for (size_t i = 0; i < max; i++) REQ(pool._objects[i] == nullptr || all.count(i), "a handle was made for a number never lent");
    }
    // all lent: the next user waits until one comes back
    phase_ = "asking for a free handle"; for (auto& [i, h] : scoped) h->release(), lent.erase(i); scoped.clear(); while (lent.size() < max - 1) { size_t i = pool.getIndex(R.p(50)); got(i); }
    atomic<int> got2(-1); size_t back = *next(lent.begin(), R.below(lent.size())); thread t([&] { got2 = pool.getIndex(); }); usleep(3000); REQ(got2 == -1, "handle %d is lent although every handle is in use", (int) got2); note("return " + S(back) + " to a waiting user"); phase_ = "a user waiting for a handle that came back"; alarm(20); pool.returnToPool(back); t.join(); REQ((size_t) got2 == back, "the wrong handle is lent to the waiting user"); alarm(0);
    for (size_t i : lent) pool.returnToPool(i);
}
static void poolThreads(int n) {
    steps_.clear(); SQLitePool pool(4, file_, 1000, 100, 1); atomic<int> users[4] = {}; atomic<SQLite*> who[4] = {}; vector<thread> ts; phase_ = "a pool with 3 handles shared by 8 threads"; alarm(120);
    for (int t = 0; t < 8; t++) ts.emplace_back([&, t] { Rng r(t + n); for (int i = 0; i < n; i++) { SQLiteScopedHandle h(pool, pool.getIndex(r.p(50))); size_t k = h._index; REQ(k < 3, "handle %zu is lent by a pool of 4", k); REQ(users[k]++ == 0, "handle %zu is lent to two users at once", k); SQLite* d = &h.db(); SQLite* was = who[k].exchange(d); REQ(!was || was == d, "the handle behind a number changed"); if (r.p(30)) this_thread::yield(); users[k]--; if (r.p(30)) h.release(); } });
    for (auto& t : ts) t.join(); REQ(pool._inUseHandles.empty(), "a handle stays lent after its user is gone"); alarm(0);
}
// several users wait, and several handles come back before any of them runs
static void poolWaiters(int rounds) {
    steps_.clear(); phase_ = "users waiting while handles are free"; SQLitePool pool(4, file_, 1000, 100, 1);
    for (int r = 0; r < rounds; r++) {
        alarm(15); vector<size_t> had, got(3); for (int i = 0; i < 3; i++) had.push_back(pool.getIndex(false)); atomic<int> n(0); vector<thread> ts; for (int i = 0; i < 3; i++) ts.emplace_back([&, i] { n++; got[i] = pool.getIndex(false); });
        while (n < 3) usleep(20); usleep(200); for (size_t i : had) pool.returnToPool(i); for (auto& t : ts) t.join(); alarm(0);
        sort(got.begin(), got.end()); REQ(got[0] == 0 && got[1] == 1 && got[2] == 2, "waiting users got handles %zu, %zu, %zu", got[0], got[1], got[2]); for (size_t i : got) pool.returnToPool(i);
    }
}
// page locks
typedef ConflictLockGuard G;
static void pageState(const map<uint64_t, int>& held, const char* when) {
    REQ(G::mutexes.size() == G::mutexCounts.size() && G::mutexes.size() == G::mutexOrder.size() && G::mutexes.size() == G::mutexOrderFastLookup.size(), "%s: %zu page locks, %zu counts, %zu places in the order, %zu lookups", when, G::mutexes.size(), G::mutexCounts.size(), G::mutexOrder.size(), G::mutexOrderFastLookup.size());
    for (auto& [i, n] : held) REQ(G::mutexes.count(i), "%s: the lock of page %llu is destroyed while it is in use", when, (unsigned long long) i);
    for (auto& [i, n] : G::mutexCounts) { auto h = held.find(i); int want = h == held.end() ? 0 : h->second; REQ(n == want, "%s: page %llu has %lld users, not %d", when, (unsigned long long) i, (long long) n, want); }
    for (auto it = G::mutexOrder.begin(); it != G::mutexOrder.end(); it++) { auto l = G::mutexOrderFastLookup.find(*it); REQ(l != G::mutexOrderFastLookup.end() && l->second == it, "%s: the place of page %llu in the order is lost", when, (unsigned long long) *it); }
}
static void pageSequence() {
    steps_.clear(); map<uint64_t, int> held; vector<pair<uint64_t, unique_ptr<G>>> gs; uint64_t base = R.p(30) ? ~0ull - 2000 : 1 + R.below(1000);
    for (int s = 0; s < 900; s++) {
        phase_ = "locking a page nobody has locked"; alarm(20);
        if (R.p(2)) { auto a = make_unique<G>(0), b = make_unique<G>(0); continue; }
        if (gs.size() && R.p(s < 450 ? 40 : 60)) { size_t i = R.below(gs.size()); note("release " + S(gs[i].first)); held.erase(gs[i].first); gs.erase(gs.begin() + i); }
        else { uint64_t id = base + (R.p(70) ? s : R.below(s + 1)); if (held.count(id)) continue; note("lock " + S(id)); gs.emplace_back(id, make_unique<G>(id)); held[id] = 1; REQ(!G::mutexes.at(id).try_lock(), "page %llu is not locked", (unsigned long long) id); }
        if (s % 7 == 0 || s > 600) pageState(held, "between operations");
    }
    gs.clear(); held.clear(); pageState(held, "after every release");
}
// a user waits for a page while more pages are used than are kept
static void pageWait() {
    steps_.clear(); uint64_t id = 5; phase_ = "a user waiting for a page that was released"; alarm(60); note("page 5 is held, a second user waits, 1200 other pages come and go, page 5 is released");
    auto g = make_unique<G>(id); atomic<int> in(0), done(0); vector<thread> ts; for (int t = 0; t < 3; t++) ts.emplace_back([&] { G h(id); REQ(in++ == 0, "two users have page 5 at once"); usleep(200); in--; done++; }); for (int i = 0; i < 2000; i++) { lock_guard<mutex> l(G::controlMutex); if (G::mutexCounts[id] == 4) break; usleep(500); }
    for (uint64_t i = 100; i < 1300; i++) { G h(i); } REQ(done == 0, "a page that is held is lent to another user"); { lock_guard<mutex> l(G::controlMutex); pageState({{5, 4}}, "while three users wait"); }
    g.reset(); for (uint64_t i = 2000; i < 2700; i++) { G h(i); } for (auto& t : ts) t.join(); pageState({}, "after every release"); alarm(0);
}
static void pageThreads(int n, int pages) {
    steps_.clear(); vector<atomic<int>> in(pages); vector<thread> ts; phase_ = "8 threads sharing pages"; alarm(120);
    for (int t = 0; t < 8; t++) ts.emplace_back([&, t] { Rng r(t * 7 + n); for (int i = 0; i < n; i++) { int p = r.p(50) ? r.below(3) : r.below(pages); G g(1000 + p); REQ(in[p]++ == 0, "two users have page %d at once", 1000 + p); if (r.p(40)) this_thread::yield(); in[p]--; } });
    for (auto& t : ts) t.join(); pageState({}, "after every release"); alarm(0);
}
int main(int argc, char** argv) {
    pid_ = argv[1]; string tier = argv[2]; R = Rng(atoll(argv[3])); signal(SIGALRM, hung); sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); pthread_sigmask(SIG_UNBLOCK, &s, nullptr); shimDeathNote = [] { return "  history:" + story(); };
    const char* t = getenv("TMPDIR"); file_ = string(t ? t : "/tmp") + "/pool.db"; bool th = tier == "thorough"; int a = 0, b = 0;
    for (; a < (th ? 150 : 25); a++) poolSequence(a); for (int i = 0; i < (th ? 20 : 3); i++) poolThreads(300); poolWaiters(th ? 1500 : 150);
    for (; b < (th ? 200 : 25); b++) pageSequence(); for (int i = 0; i < (th ? 10 : 2); i++) pageWait(); for (int i = 0; i < (th ? 30 : 4); i++) pageThreads(2000, i % 2 ? 1500 : 20);
    printf("COUNT %d pool sequences, %d page lock sequences\n", a, b); fflush(stdout); _exit(0);
}
