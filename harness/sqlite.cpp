// Replay / failing-input search for P01, P02, P04, P05: random operation sequences on database handles of the real code,
// with injected failures of individual SQL statements, checked against independent bookkeeping after every operation.
#include <bits/stdc++.h>
#include <libstuff/libstuff.h>
#define private public
#include <sqlitecluster/SQLite.h>
#include <plugins/Compression.h>
#undef private
#include <libstuff/sqlite3.h>
#define ZDICT_STATIC_LINKING_ONLY
#include <zdict.h>
#include "shim.h"
#include "util.h"
using namespace std;
static string pid_; static Rng R(1); static vector<string> journal_;
static bool on(const char* p) { return pid_ == p || pid_ == "all"; }
static void note(const string& s) { journal_.push_back(s); }
static string hist() { string o; size_t from = journal_.size() > 40 ? journal_.size() - 40 : 0; for (size_t i = from; i < journal_.size(); i++) o += "\n    " + journal_[i]; return o; }
#define REQ(P, c, ...) do { if (on(P) && !(c)) { printf("VIOLATED: %s: ", P); printf(__VA_ARGS__); printf("\n  operations:%s\n", hist().c_str()); _exit(1); } } while (0)

typedef map<string, SQLite::Parameter> Params;
struct H { SQLite* db; Worker w; bool inside = false, lock = false, prepared = false, noop = false, dead = false, rewrite = false; string text, hash; };
static vector<H*> hs; static SQLite::SharedData* sd; static Worker* probe;
static uint64_t count_ = 0; static string last_; static map<uint64_t, pair<string, string>> outgoing_; static int64_t open_ = 0;
static string dir_; static sqlite3* replica; static vector<string> callbackTrouble;

static bool lockFree() { bool r = false; probe->run([&] { r = sd->commitLock.try_lock(); if (r) sd->commitLock.unlock(); }); return r; }
static bool writeLockFree() { bool r = false; probe->run([&] { r = sd->writeLock.try_lock(); if (r) sd->writeLock.unlock(); }); return r; }
static void invariants(const char* op) {
    H* holder = nullptr; for (H* h : hs) if (h->lock) holder = h;
    REQ("P01", lockFree() == !holder, "after %s the commit lock is %s but %s handle should hold it", op, holder ? "free" : "held", holder ? "a" : "no");
    REQ("P01", writeLockFree(), "after %s the write lock is still held", op);
    int64_t want = 0;
    for (H* h : hs) { want += h->inside; REQ("P01", h->db->insideTransaction() == h->inside, "after %s a handle reports %s transaction", op, h->inside ? "no" : "an open");
        REQ("P01", h->inside || (h->db->getUncommittedQuery().empty() && h->db->getUncommittedHash().empty()), "after %s a handle with no transaction still has transaction text or hash", op); }
    REQ("P01", sd->openTransactionCount == want, "after %s the open transaction count is %lld, not %lld", op, (long long) sd->openTransactionCount, (long long) want);
    REQ("P02", sd->commitCount == count_, "after %s the commit count is %llu, not %llu", op, (unsigned long long) sd->commitCount, (unsigned long long) count_);
    REQ("P02", hs[0]->db->getCommittedHash() == last_ && hs.back()->db->getCommitCount() == count_, "after %s the committed hash is not the hash of the last commit", op);
    for (H* h : hs) if (h->inside && !h->prepared) REQ("P04", h->db->getUncommittedQuery() == h->text, "after %s the recorded text is '%s', expected '%s'", op, h->db->getUncommittedQuery().c_str(), h->text.c_str());
}
static string lit(const SQLite::Parameter& p) {
    typedef SQLite::Parameter::Type T;
    if (p.type == T::Null) return "NULL";
    if (p.type == T::Int64) return to_string(p.intValue);
    if (p.type == T::Double) { char b[64]; snprintf(b, 64, "%.15g", p.doubleValue); string s = b; if (s.find_first_of(".e") == string::npos) s += ".0"; return s; }
    string o;
    if (p.type == T::Text) { o = "'"; for (char c : p.stringValue) { o += c; if (c == '\'') o += c; } return o + "'"; }
    o = "x'"; for (unsigned char c : p.stringValue) { char b[3]; snprintf(b, 3, "%02x", c); o += b; } return o + "'";
}
static string expand(string q, const Params& ps) { for (auto& [k, v] : ps) { size_t at = 0; while ((at = q.find(k, at)) != string::npos) { string l = lit(v); q.replace(at, k.size(), l); at += l.size(); } } for (const char* k : {":aa", ":bb"}) for (size_t at; (at = q.find(k)) != string::npos;) q.replace(at, 3, "NULL"); return q; }
static Params params() { // all referenced by :a / :b
    auto one = [&]() -> SQLite::Parameter { switch (R.below(5)) { case 0: return SQLite::Parameter::i((int64_t) R.below(50) - 5); case 1: return SQLite::Parameter::text(R.p(50) ? "it's; -- x" : "plain" + to_string(R.below(9))); case 2: return SQLite::Parameter::null(); case 3: return SQLite::Parameter::blob(string("\x01\xff'q", 4)); default: return SQLite::Parameter::d(R.below(40) + 0.5); } };
    return {{":aa", one()}, {":bb", one()}};
}
// what running the query directly on the connection gives now (the code under test is bypassed)
static bool direct(SQLite* db, const string& q, const Params& ps, vector<vector<string>>& rows, vector<string>& heads) {
    rows.clear(); heads.clear(); bool det = db->_isDeterministicQuery; sqlite3_stmt* st = nullptr; bool ok = true; const char* tail = q.c_str();
    auto keepTables = db->_tablesUsed; auto* ab = db->_shouldAbortPtr; db->_shouldAbortPtr = nullptr; auto tl = db->_timeoutLimit; db->_timeoutLimit = 0;
    while (*tail && ok) {
        if (sqlite3_prepare_v2(db->_db, tail, -1, &st, &tail)) { ok = false; break; }
        if (!st) continue;
        for (auto& [k, v] : ps) { int i = sqlite3_bind_parameter_index(st, k.c_str()); if (!i) continue; typedef SQLite::Parameter::Type T;
            if (v.type == T::Int64) sqlite3_bind_int64(st, i, v.intValue); else if (v.type == T::Double) sqlite3_bind_double(st, i, v.doubleValue); else if (v.type == T::Text) sqlite3_bind_text(st, i, v.stringValue.data(), v.stringValue.size(), SQLITE_TRANSIENT); else if (v.type == T::Blob) sqlite3_bind_blob(st, i, v.stringValue.data(), v.stringValue.size(), SQLITE_TRANSIENT); }
        int n = sqlite3_column_count(st), rc; for (int i = 0; i < n; i++) heads.push_back(sqlite3_column_name(st, i));
        while ((rc = sqlite3_step(st)) == SQLITE_ROW) { vector<string> r; for (int i = 0; i < n; i++) { auto* t = sqlite3_column_blob(st, i); r.push_back(t ? string((const char*) t, sqlite3_column_bytes(st, i)) : string()); } rows.push_back(r); }
        if (rc != SQLITE_DONE) ok = false;
        sqlite3_finalize(st);
    }
    db->_isDeterministicQuery = det; db->_tablesUsed = keepTables; db->_shouldAbortPtr = ab; db->_timeoutLimit = tl; return ok;
}
static string dump(sqlite3* db) {
    string o; for (const char* t : {"t", "u", "n1", "n2", "n3"}) { sqlite3_stmt* st; string q = string("SELECT rowid,* FROM ") + t + " ORDER BY rowid"; if (sqlite3_prepare_v2(db, q.c_str(), -1, &st, nullptr)) { o += string("no ") + t + "\n"; continue; }
        o += string(t) + "\n"; while (sqlite3_step(st) == SQLITE_ROW) { for (int i = 0; i < sqlite3_column_count(st); i++) { if (sqlite3_column_type(st, i) == SQLITE_FLOAT) { char d[64]; snprintf(d, 64, "F%.17g|", sqlite3_column_double(st, i)); o += d; continue; } auto* b = sqlite3_column_blob(st, i); o += to_string(sqlite3_column_type(st, i)) + ":"; o += b ? string((const char*) b, sqlite3_column_bytes(st, i)) : "-"; o += "|"; } o += "\n"; } sqlite3_finalize(st); }
    return o;
}
static bool nondet(const string& q) { for (const char* f : {"random", "date(", "time(", "julianday", "unixepoch", "strftime", "current_", "changes()", "last_insert_rowid"}) if (q.find(f) != string::npos) return true; return false; }
static const char* reads[] = {"SELECT COUNT(*) FROM t;", "SELECT id, v FROM t ORDER BY id;", "SELECT v FROM t WHERE id = 3;", "SELECT COALESCE(MAX(id), 0) FROM t;", "SELECT x FROM u ORDER BY x;", "SELECT name FROM sqlite_master WHERE type='table' ORDER BY name;", "SELECT no_such_column FROM t;", "SELECT COUNT(*) FROM n1;",
    "SELECT random();", "SELECT hex(randomblob(8));", "SELECT strftime('%f','now');", "SELECT julianday('now');", "SELECT time('now','subsec');", "SELECT datetime('now','subsec');", "SELECT date('now');", "SELECT unixepoch('now','subsec');", "SELECT current_timestamp;", "SELECT current_time;", "SELECT current_date;", "SELECT changes();", "SELECT total_changes();", "SELECT last_insert_rowid();", "SELECT COUNT(*) + 0 * random() FROM t;", "SELECT 1; SELECT 2;", "SELECT v FROM t WHERE id = :aa;", "SELECT COUNT(*) FROM localt;"};
static const char* writes[] = {"INSERT INTO t (v) VALUES ('w');", "UPDATE t SET v = v || 'x' WHERE id % 2 = 0;", "DELETE FROM t WHERE id = (SELECT MIN(id) FROM t);", "UPDATE t SET v = 'none' WHERE id < 0;", "INSERT INTO u VALUES (1);", "INSERT INTO u VALUES (:aa);", "INSERT INTO t (v) VALUES (:aa); INSERT INTO t (v) VALUES (:bb);", "UPDATE t SET v = :aa WHERE id = 2;", "INSERT INTO nosuch VALUES (1);", "CREATE TABLE n1 (a);", "DROP TABLE n1;", "CREATE TABLE IF NOT EXISTS n2 (a);", "CREATE INDEX IF NOT EXISTS i2 ON t (v);", "SELECT COUNT(*) FROM t;", "INSERT INTO t (v) VALUES ('r') RETURNING id;", "DELETE FROM t WHERE id > 6 RETURNING id, v;", "", "INSERT INTO t (v) VALUES ('a'); SELECT 1;", "INSERT INTO t (v) VALUES (random());", "INSERT INTO t (v) VALUES (hex(changes()));", "INSERT OR IGNORE INTO u VALUES (1);"};
static void doRollback(H* h) {
    note("rollback"); bool threw = false; h->w.run([&] { try { h->db->rollback(); } catch (...) { threw = true; } }, "rollback");
    REQ("P01", !threw, "rollback threw"); h->inside = h->lock = h->prepared = false; h->text.clear(); h->hash.clear();
}
static void doBegin(H* h, bool excl) {
    bool other = false; for (H* o : hs) if (o != h && o->lock) other = true; if (excl && other) return;
    int fault = R.p(12) ? 1 : 0; note(string("begin ") + (excl ? "EXCLUSIVE" : "SHARED") + (fault ? " (BEGIN fails)" : "") + (h->inside ? " (already inside)" : ""));
    bool r = false, threw = false, hadText = h->inside;
    if (fault) shimFault = [](const string& s) { return s.rfind("BEGIN", 0) == 0 ? SQLITE_ERROR : 0; };
    h->w.run([&] { try { r = h->db->beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED, R.p(20)); } catch (...) { threw = true; } }, "beginTransaction"); shimFault = nullptr;
    h->text.clear(); h->hash.clear(); h->prepared = false;
    REQ("P01", threw == hadText, "beginTransaction %s", threw ? "threw on a clean handle" : "accepted a nested transaction");
    if (!threw) REQ("P01", r == !fault, "beginTransaction returned %d", r);
    h->inside = r && !threw; h->lock = h->inside && excl;
}
static bool rewriteU(int code, const char* d, string& q) { if (code == SQLITE_INSERT && d && !strcmp(d, "u")) { q = "INSERT INTO t (v) VALUES (:aa || 'rw');"; return true; } return false; }
static void doWrite(H* h) {
    string q = writes[R.below(sizeof(writes) / sizeof(*writes))]; Params ps = params(); bool usep = q.find(":aa") != string::npos || R.p(10); int form = R.below(10), fault = R.p(8);
    bool rw = R.p(12); if (rw) { q = R.p(70) ? "INSERT INTO u VALUES (:aa);" : q; usep = usep || q.find(":aa") != string::npos; h->db->setRewriteHandler(rewriteU); h->db->enableRewrite(true); } string ran = rw && q.find("INTO u") != string::npos ? "INSERT INTO t (v) VALUES (:aa || 'rw');" : q;
    if (!usep) ps.clear();
    if (usep && ps.empty()) ps = params();
    note(string(rw ? "[rewriting on] " : "") + "write form " + to_string(form) + " '" + q + "'" + (usep ? " params " + lit(ps[":aa"]) + "," + lit(ps[":bb"]) : "") + (fault ? " (statement fails)" : "") + (h->noop ? " [no-op mode]" : ""));
    bool ok = false, threw = false; int ch0 = sqlite3_total_changes(h->db->_db); bool ddl = q.rfind("CREATE", 0) == 0 || q.rfind("DROP", 0) == 0; int sv0 = 0, sv1 = 0; vector<vector<string>> rr; vector<string> hh;
    auto schema = [&] { sqlite3_stmt* st; int v = -1; if (!sqlite3_prepare_v2(h->db->_db, "PRAGMA schema_version", -1, &st, nullptr)) { if (sqlite3_step(st) == SQLITE_ROW) v = sqlite3_column_int(st, 0); sqlite3_finalize(st); } return v; };
    h->w.run([&] { sv0 = schema(); });
    if (fault) shimFault = [ran](const string& s) { return s == ran ? SQLITE_ERROR : 0; };
    bool unmod = form >= 8, idem = form >= 4 && !unmod, skipped = h->noop && !idem && !unmod; SQResult res;
    h->w.run([&] { try { switch (form) {
        case 0: ok = usep ? h->db->write(q, ps) : h->db->write(q); break; case 1: ok = h->db->write(q, ps); break; case 2: ok = usep ? h->db->write(q, ps, res) : h->db->write(q, res); break; case 3: ok = h->db->write(q, ps, res); break;
        case 4: ok = usep ? h->db->writeIdempotent(q, ps) : h->db->writeIdempotent(q); break; case 5: ok = h->db->writeIdempotent(q, ps); break; case 6: ok = usep ? h->db->writeIdempotent(q, ps, res) : h->db->writeIdempotent(q, res); break; case 7: ok = h->db->writeIdempotent(q, ps, res); break;
        case 8: ok = usep ? h->db->writeUnmodified(q, ps) : h->db->writeUnmodified(q); break; default: ok = h->db->writeUnmodified(q, ps); break; } } catch (...) { threw = true; } }, "write"); shimFault = nullptr; h->db->enableRewrite(false);
    h->w.run([&] { sv1 = schema(); });
    bool changed = sqlite3_total_changes(h->db->_db) > ch0 || sv1 > sv0;
    if (!h->inside && !skipped) REQ("P04", threw, "a write outside a transaction was accepted");
    if (skipped) { REQ("P04", ok && !threw && !changed, "a skipped write in no-op mode took effect"); return; }
    if (!h->inside) return;
    if (ok && !threw && (changed || unmod)) h->text += expand(ran, ps);
    if (sqlite3_get_autocommit(h->db->_db)) { doRollback(h); return; }
    if (!ok || threw) { if (changed || R.p(30)) doRollback(h); }
    else if (on("P04") && (form == 2 || form == 3 || form == 6 || form == 7) && q.find("RETURNING") != string::npos && changed) REQ("P04", !res.empty(), "a write with RETURNING gave back no rows");
}
static void doRead(H* h, const char* fixed = nullptr) {
    string q = fixed ? fixed : reads[R.below(sizeof(reads) / sizeof(*reads))]; Params ps; if (q.find(":aa") != string::npos || R.p(15)) ps = {{":aa", SQLite::Parameter::i(R.below(6))}};
    int form = R.below(5); bool rewrite = false; for (int rep = 0; rep < 1 + R.below(3); rep++) {
        note("read form " + to_string(form) + " '" + q + "'" + (ps.empty() ? "" : " :aa=" + to_string(ps[":aa"].intValue)));
        SQResult res; bool ok = false, threw = false; string str; vector<string> trace; vector<vector<string>> rows; vector<string> heads; bool dok = false;
        if (R.p(30)) { SQResult pre(vector<SQResultRow>{}, {"stale"}); res = pre; }
        h->w.run([&] { if (!nondet(q)) dok = direct(h->db, q, ps, rows, heads); shimTrace = &trace; try { if (form <= 1) ok = ps.empty() ? h->db->read(q, res) : h->db->read(q, ps, res); else if (form == 2) ok = h->db->read(q, ps, res, true); else { str = ps.empty() ? h->db->read(q) : h->db->read(q, ps); ok = true; } } catch (...) { threw = true; } shimTrace = nullptr; }, "read");
        if (threw) continue;
        if (nondet(q)) { bool ran = false; for (auto& s : trace) if (s == q) ran = true; REQ("P05", ran, "the non-deterministic query '%s' was answered from the cache", q.c_str()); continue; }
        if (form <= 2) { REQ("P05", ok == dok, "read('%s') %s but running it %s", q.c_str(), ok ? "succeeded" : "failed", dok ? "succeeds" : "fails"); if (!ok) continue;
            REQ("P05", res.size() == rows.size(), "read('%s') gave %zu rows, the database has %zu", q.c_str(), res.size(), rows.size());
            for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < rows[i].size(); j++) REQ("P05", string(res[i][j]) == rows[i][j], "read('%s') row %zu gave '%s', the database has '%s'", q.c_str(), i, string(res[i][j]).c_str(), rows[i][j].c_str());
            if (q.find("; SELECT") == string::npos) { REQ("P05", res.headers == heads, "read('%s') gave other column names", q.c_str()); } }
        else REQ("P05", str == (rows.empty() || rows[0].empty() || !dok ? string() : rows[0][0]), "read('%s') gave '%s', the database has '%s'", q.c_str(), str.c_str(), rows.empty() ? "" : rows[0][0].c_str());
    }
}
static void doPrepare(H* h) {
    if (!h->inside || h->prepared) return;
    bool other = false; for (H* o : hs) if (o != h && o->lock) other = true;
    int mode = R.below(12); bool fault = mode == 0, abortSet = mode == 1 || mode == 2, abortRef = mode == 3, handlerThrows = mode == 4, handlerWrites = mode == 5; atomic<bool> ab(abortSet), ab2(true);
    note(string("prepare") + (fault ? " (journal insert fails)" : abortSet ? " (aborted)" : abortRef ? " (abort set)" : handlerThrows ? " (handler throws)" : handlerWrites ? " (handler writes)" : "") + (other ? " while another handle holds the lock" : ""));
    static string handlerText; handlerText.clear();
    if (fault) shimFault = [](const string& s) { return s.rfind("INSERT INTO journal", 0) == 0 ? SQLITE_ERROR : 0; };
    if (handlerThrows || handlerWrites) { h->db->enablePrepareNotifications(true); h->db->setOnPrepareHandler(handlerThrows ? +[](SQLite&, int64_t) { throw runtime_error("x"); } : +[](SQLite& d, int64_t) { try { if (d.writeIdempotent("INSERT INTO t (v) VALUES ('handler');")) handlerText = "INSERT INTO t (v) VALUES ('handler');"; } catch (...) {} }); }
    if (abortRef) h->db->setAbortRef(ab2);
    uint64_t id = 0; string hash; bool r = false, threw = false, had = h->lock; bool ids = R.p(70);
    auto timeout = chrono::microseconds(other ? 3000 : R.p(10) ? 0 : 2000000);
    h->w.run([&] { try { r = h->db->prepare(ids ? &id : nullptr, ids ? &hash : nullptr, timeout, abortSet ? &ab : nullptr); } catch (...) { threw = true; } }, "prepare"); shimFault = nullptr; h->db->enablePrepareNotifications(false); if (abortRef) h->db->clearAbortRef();
    if (threw) { h->text += handlerText; h->lock = h->db->_mutexLocked; invariants("prepare threw"); doRollback(h); return; }
    if (!h->db->insideTransaction()) { REQ("P01", !r, "prepare succeeded without a transaction"); h->inside = h->lock = false; h->text.clear(); return; }
    if (!r) { REQ("P01", !fault || (other && !had), "a failed journal insert left the transaction open"); h->lock = had; if (!handlerText.empty()) h->text += handlerText; return; }
    h->text += handlerText;
    REQ("P01", !other || had, "prepare succeeded while another handle holds the commit lock"); REQ("P01", !fault, "prepare succeeded although the journal row was refused");
    h->lock = true; h->prepared = true; h->hash = h->db->getUncommittedHash(); string want = SToHex(SHashSHA1(last_ + h->text));
    REQ("P02", h->hash == want, "the new hash is not SHA1 of the previous hash and the transaction text (text '%s')", h->text.c_str());
    if (ids) { REQ("P02", id == count_ + 1, "prepare reported commit %llu after %llu", (unsigned long long) id, (unsigned long long) count_); REQ("P02", hash == h->hash, "prepare reported another hash"); }
    REQ("P04", BedrockPlugin_Compression::decompress(h->db->getUncommittedQuery()) == h->text, "the prepared text is '%s', expected '%s'", BedrockPlugin_Compression::decompress(h->db->getUncommittedQuery()).c_str(), h->text.c_str());
}
static void doCommit(H* h) {
    if (!h->prepared) return;
    int mode = R.below(10); bool disabled = mode == 0, snapshot = mode == 1, slow = mode == 2 || mode == 3, cbThrows = mode == 4; int rc = -1; bool threw = false; string stored = h->db->getUncommittedQuery();
    note(string("commit") + (disabled ? " (disabled)" : snapshot ? " (conflict)" : slow ? " (slow HC-Tree commit)" : cbThrows ? " (callback throws)" : ""));
    if (disabled) h->w.run([&] { /* another handle's thread disables commits; only legal without the lock held elsewhere */ sd->_commitEnabled = false; });
    if (snapshot) shimFault = [](const string& s) { return s == "COMMIT" ? SQLITE_BUSY_SNAPSHOT : 0; };
    bool hc = h->db->_hctree; if (slow) { const_cast<bool&>(h->db->_hctree) = true; h->db->_commitElapsed = 200000; if (R.p(50)) h->db->setTimeout(1); usleep(50); }
    function<void()> cb = [&] { if (cbThrows) throw runtime_error("cb"); };
    h->w.run([&] { try { rc = h->db->commit("t", "c", R.p(50) || cbThrows ? &cb : nullptr); } catch (...) { threw = true; } }, "commit"); shimFault = nullptr; if (slow) { const_cast<bool&>(h->db->_hctree) = hc; h->db->clearTimeout(); h->db->_commitElapsed = 0; } if (disabled) sd->_commitEnabled = true;
    for (auto& s : callbackTrouble) REQ("P01", false, "%s", s.c_str());
    if (!threw) { REQ("P02", (rc == 0) == !(disabled || snapshot), "commit returned %d", rc); }
    if ((threw && !disabled && !snapshot) || rc == 0) {
        count_++; last_ = h->hash; outgoing_[count_] = {stored, h->hash}; string text = h->text;
        h->inside = h->lock = h->prepared = false; h->text.clear(); h->hash.clear();
        // journal row
        SQResult r; string q, hs_; probe->run([&] { SQResult jr; sqlite3_stmt* st; sqlite3* side = nullptr; sqlite3_open((dir_ + "/db").c_str(), &side); string sql; for (auto& j : h->db->_journalNames) sql += (sql.empty() ? "" : " UNION ALL ") + string("SELECT id, query, hash FROM ") + j + " WHERE id = " + to_string(count_); int n = 0; sqlite3_prepare_v2(side, sql.c_str(), -1, &st, nullptr); while (sqlite3_step(st) == SQLITE_ROW) { n++; auto* b = sqlite3_column_blob(st, 1); q = b ? string((const char*) b, sqlite3_column_bytes(st, 1)) : ""; hs_ = (const char*) sqlite3_column_text(st, 2); } sqlite3_finalize(st); sqlite3_close(side);
            REQ("P02", n == 1, "commit %llu has %d journal rows", (unsigned long long) count_, n); });
        REQ("P02", q == stored && hs_ == last_, "the journal row of commit %llu does not hold its text and hash", (unsigned long long) count_);
        REQ("P04", BedrockPlugin_Compression::decompress(q) == text, "the journal row of commit %llu holds '%s', the transaction ran '%s'", (unsigned long long) count_, BedrockPlugin_Compression::decompress(q).c_str(), text.c_str());
        if (on("P04")) { string e = BedrockPlugin_Compression::decompress(q); char* err = nullptr; int rc2 = sqlite3_exec(replica, e.c_str(), nullptr, nullptr, &err); REQ("P04", rc2 == 0, "replaying commit %llu fails: %s\n%s", (unsigned long long) count_, err ? err : "", e.c_str());
            sqlite3* side2; sqlite3_open((dir_ + "/db").c_str(), &side2); string a = dump(side2), b = dump(replica); sqlite3_close(side2); REQ("P04", a == b, "replaying the journal of commit %llu gives other data\nleader:\n%s\nreplica:\n%s", (unsigned long long) count_, a.c_str(), b.c_str()); }
    }
    else if (R.p(70)) doRollback(h);
}
int main(int argc, char** argv) {
    pid_ = argc > 1 ? argv[1] : "all"; string tier = argc > 2 ? argv[2] : "quick"; uint64_t seed = argc > 3 ? strtoull(argv[3], 0, 10) : 1; R = Rng(seed + 77);
    char t[] = "sqXXXXXX"; dir_ = mkdtemp(t); char cwd[4096]; dir_ = string(getcwd(cwd, 4096)) + "/" + dir_;
    probe = new Worker; SInitialize("harness"); shimHandlers(); shimDeathNote = [] { return "  operations:" + hist(); };
    // a compression dictionary for the journal
    { string samples; vector<size_t> sz; for (int i = 0; i < 400; i++) { string s = "INSERT INTO t (v) VALUES ('" + to_string(i * 7919) + "'); UPDATE t SET v = v || 'x' WHERE id % 2 = 0;"; samples += s; sz.push_back(s.size()); } string d(20000, 0); ZDICT_params_t zp = {3, 0, 7}; string content = samples.substr(0, 3000); size_t n = ZDICT_finalizeDictionary(&d[0], d.size(), content.data(), content.size(), samples.data(), sz.data(), sz.size(), zp);
      if (!ZDICT_isError(n)) { d.resize(n); BedrockPlugin_Compression::_dictionaries[7] = {ZSTD_createCDict(d.data(), d.size(), 3), ZSTD_createDDict(d.data(), d.size())}; SQLite::journalZstdDictionaryID = 7; } else printf("note: no dictionary: %s\n", ZDICT_getErrorName(n)); }
    if (pid_ == "P04F") { // literals that the SQLite library's statement expansion does not write back exactly
        auto bad = [&](SQLite::Parameter v) { static int k = 0; dir_ += "/f" + to_string(k++); mkdir(dir_.c_str(), 0700); SQLite db(dir_ + "/db", 1000, 1000000, 2); sqlite3_open(":memory:", &replica); sqlite3_exec(replica, "CREATE TABLE t (id INTEGER PRIMARY KEY, v);", 0, 0, 0);
            db.beginTransaction(); db.write("CREATE TABLE t (id INTEGER PRIMARY KEY, v);"); db.rollback(); sqlite3_exec(db._db, "CREATE TABLE t (id INTEGER PRIMARY KEY, v);", 0, 0, 0);
            db.beginTransaction(); db.write("INSERT INTO t (v) VALUES (:v);", {{":v", v}}); db.prepare(); db.commit(); string q; db.getCommit(db.getCommitCount(), &q, nullptr); sqlite3_exec(replica, q.c_str(), 0, 0, 0); return dump(db._db) != dump(replica); };
        if (bad(SQLite::Parameter::d(0.1 + 0.2))) printf("FINDING: double parameter loses precision in the journal\n");
        if (bad(SQLite::Parameter::text(string("a\0b", 3)))) printf("FINDING: text parameter with a NUL byte is cut short in the journal\n");
        if (bad(SQLite::Parameter::text("it's")) || bad(SQLite::Parameter::i(-5)) || bad(SQLite::Parameter::null()) || bad(SQLite::Parameter::blob(string("\0\xff", 2))) || bad(SQLite::Parameter::d(2.5))) FAIL("P04: a parameter is journaled as another value");
        fflush(stdout); _exit(0);
    }
    int rounds = tier == "thorough" ? 400 : 40, ops = 0, commits = 0, steps = tier == "thorough" ? 700 : 400;
    for (int round = 0; round < rounds; round++) {
        journal_.clear(); string f = dir_ + "/db"; for (const char* e : {"", "-wal", "-shm", "-journal"}) unlink((f + e).c_str());
        if (round % 2) SQLite::journalZstdDictionaryID = BedrockPlugin_Compression::_dictionaries.count(7) ? 7 : 0; else SQLite::journalZstdDictionaryID = 0;
        dir_ = dir_ ; string rd = dir_; dir_ = rd + "/r" + to_string(round); mkdir(dir_.c_str(), 0700); f = dir_ + "/db";
        { sqlite3* d; sqlite3_open(f.c_str(), &d); sqlite3_exec(d, "PRAGMA journal_mode=wal; CREATE TABLE t (id INTEGER PRIMARY KEY, v); CREATE TABLE u (x UNIQUE); CREATE TABLE localt (a); CREATE TABLE hctstats (a);INSERT INTO hctstats VALUES(1);", 0, 0, 0); sqlite3_close(d); }
        sqlite3_open(":memory:", &replica); sqlite3_exec(replica, "CREATE TABLE t (id INTEGER PRIMARY KEY, v); CREATE TABLE u (x UNIQUE);", 0, 0, 0);
        callbackTrouble.clear(); function<void()> after = [] { if (!lockFree()) callbackTrouble.push_back("the commit lock is still held when the after-commit callbacks run"); if (R.p(20)) throw runtime_error("callback"); };
        hs.clear(); H* a = new H; a->db = new SQLite(f, 1000, round % 4 == 3 ? 5 : 1000000, 2 + round % 3, 0, false, "PASSIVE", {after}); hs.push_back(a); for (int i = 0; i < (round % 4 == 3 ? 0 : 1 + round % 2); i++) { H* b = new H; b->db = new SQLite(*a->db); hs.push_back(b); }
        sd = &a->db->_sharedData; count_ = sd->commitCount; last_ = a->db->getCommittedHash(); outgoing_.clear(); REQ("P02", count_ == 0, "a new database starts at commit %llu", (unsigned long long) count_);
        for (int i = 0; i < steps; i++) {
            H* h = hs[R.below(hs.size())]; int o = R.below(100); ops++; string nm = "op"; if (o >= 70 && o < 84) for (H* x : hs) if (x->inside && R.p(60)) h = x;
            if (o < 14) { doBegin(h, R.p(35)); nm = "begin"; }
            else if (o < 50) { if (!h->prepared) doWrite(h); nm = "write"; }
            else if (o < 70) { doRead(h); nm = "read"; }
            else if (o < 80) { doPrepare(h); nm = "prepare"; if (h->prepared && R.p(80)) { invariants("prepare"); doCommit(h); nm = "commit"; if (on("P05")) for (H* x : hs) for (int k = 0; k < 3; k++) doRead(x, reads[k]); } }
            else if (o < 84) { doCommit(h); nm = "commit"; }
            else if (o < 87) { doRollback(h); nm = "rollback"; }
            else if (o < 89) { note("setUpdateNoopMode"); bool v = R.p(50); string before = h->db->getUncommittedQuery(); bool was = h->noop; if (!h->prepared) { bool threw = false; h->w.run([&] { try { h->db->setUpdateNoopMode(v); } catch (...) { threw = true; } }, "setUpdateNoopMode"); if (!threw) { h->noop = v; REQ("P04", h->db->getUpdateNoopMode() == v, "no-op mode not set"); if (was != v && h->inside) h->text += string("PRAGMA noop_update=") + (v ? "ON;" : "OFF;"); } } nm = "setUpdateNoopMode"; }
            else if (o < 91) { bool fail = R.p(30); note(string("writeLocalUnreplicated") + (fail ? " (fails)" : "")); bool r = false; string q = fail ? "INSERT INTO nosuch VALUES (1);" : "INSERT INTO localt VALUES (1);"; h->w.run([&] { try { r = h->db->writeLocalUnreplicated(q); } catch (...) {} }, "writeLocalUnreplicated"); REQ("P04", !(h->inside && r), "an unreplicated write ran inside a transaction"); if (!h->inside && sqlite3_get_autocommit(h->db->_db) == 0) REQ("P01", false, "writeLocalUnreplicated left a database transaction open"); nm = "writeLocalUnreplicated"; }
            else if (o < 94) { bool deny = R.p(50); if (R.p(70)) { for (H* x : hs) if (x->inside) h = x; doRead(h, reads[R.below(4)]); } note(string("setAuthorizer ") + (deny ? "deny t" : "none")); h->w.run([&] { if (deny) h->db->setAuthorizer([](int c, const char* d1, const char*, const char*, const char*) { return !(c == SQLITE_READ && d1 && !strcmp(d1, "t")); }); else h->db->setAuthorizer(nullptr); }); if (R.p(80)) for (int k = 0; k < 4; k++) doRead(h, reads[k]); if (R.p(70)) { h->w.run([&] { h->db->setAuthorizer(nullptr); }); note("setAuthorizer none"); } nm = "setAuthorizer"; }
            else if (o < 96) { note("popCommittedTransactions"); auto m = h->db->popCommittedTransactions(); REQ("P02", m == outgoing_, "the transactions handed out for broadcast are not exactly the commits since the last call"); outgoing_.clear(); nm = "popCommittedTransactions"; }
            else if (o < 98) { note("aborted read"); atomic<bool> b(true); h->w.run([&] { h->db->setAbortRef(b); SQResult r; try { h->db->read("SELECT COUNT(*) FROM t;", r); } catch (...) {} h->db->clearAbortRef(); }); nm = "read"; }
            else { bool ok = lockFree(); if (ok) { note("setCommitEnabled off/on"); h->w.run([&] { h->db->setCommitEnabled(false); h->db->setCommitEnabled(true); }, "setCommitEnabled"); } nm = "setCommitEnabled"; }
            invariants(nm.c_str());
            if (on("P05") && h->inside && R.p(40)) for (int k = 0; k < 2; k++) doRead(h, reads[R.below(6)]);
        }
        for (H* h : hs) { doRollback(h); invariants("rollback"); }
        REQ("P01", lockFree(), "the commit lock is held after every handle rolled back"); auto m = a->db->popCommittedTransactions(); REQ("P02", m == outgoing_, "the transactions handed out for broadcast are not exactly the commits since the last call");
        commits += count_;
        sqlite3_close(replica); dir_ = rd;
    }
    // a handle that waits in prepare while others commit
    if (on("P02") || on("P01")) for (int n = 0; n < (tier == "thorough" ? 40 : 6); n++) {
        journal_.clear(); note("handle B waits in prepare while handle A commits"); string d = dir_ + "/w" + to_string(n); mkdir(d.c_str(), 0700); SQLite::journalZstdDictionaryID = 0; shimConcurrent = true;
        SQLite* a = new SQLite(d + "/db", 1000, 1000000, 3); SQLite* b = new SQLite(*a); Worker* wa = new Worker; Worker* wb = new Worker; bool ok = false, excl = n % 2; uint64_t id = 0; string hash; sd = &a->_sharedData; string txt = "SELECT " + to_string(n) + ";";
        if (n > 2) wa->run([&] { a->beginTransaction(); a->writeUnmodified("SELECT 9;"); a->prepare(); a->commit(); });
        wa->run([&] { a->beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED); a->writeUnmodified("SELECT 1;"); if (!a->prepare()) FAIL("P01: prepare refused"); });
        wb->start([&] { b->beginTransaction(); b->writeUnmodified(txt); ok = b->prepare(&id, &hash, chrono::seconds(20)); });
        usleep(30000 + 40000 * (n % 3)); REQ("P01", !ok, "two handles are prepared at the same time"); int rc = -1; wa->run([&] { rc = a->commit(); }, "commit"); uint64_t cc = a->getCommitCount(); string last = a->getCommittedHash(); wb->wait(25000);
        REQ("P02", rc == 0 && ok, "commit returned %d, the waiting prepare %d", rc, ok); REQ("P02", id == cc + 1, "the waiting handle prepared commit %llu after %llu", (unsigned long long) id, (unsigned long long) cc); REQ("P02", hash == SToHex(SHashSHA1(last + txt)), "the waiting handle's hash does not continue the chain");
        auto m1 = a->popCommittedTransactions(); wb->run([&] { rc = b->commit(); }, "commit"); REQ("P02", rc == 0 && b->getCommittedHash() == hash && b->getCommitCount() == id, "the second commit is not published"); auto m2 = a->popCommittedTransactions(); REQ("P02", m2.size() == 1 && m2.count(id) && m2[id] == make_pair(txt, hash), "the second commit is not handed out for broadcast"); REQ("P01", lockFree(), "the commit lock is still held"); shimConcurrent = false;
    }
    // one handle's transaction ends, another handle changes the data, the first reads again
    if (on("P05")) for (int n = 0; n < (tier == "thorough" ? 60 : 12); n++) {
        journal_.clear(); string d = dir_ + "/c" + to_string(n); mkdir(d.c_str(), 0700); SQLite::journalZstdDictionaryID = 0; hs.clear(); H* a = new H; a->db = new SQLite(d + "/db", 1000, 1000000, 3); H* b = new H; b->db = new SQLite(*a->db);
        b->w.run([&] { b->db->beginTransaction(); b->db->write("CREATE TABLE t (id INTEGER PRIMARY KEY, v); CREATE TABLE u (x); CREATE TABLE localt (a); CREATE TABLE n1 (a);"); b->db->prepare(); b->db->commit(); });
        note("A begins and reads"); a->w.run([&] { a->db->beginTransaction(n % 2 ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED); if (n % 3) a->db->write("INSERT INTO t (v) VALUES ('a');"); }); for (int k = 0; k < 6; k++) doRead(a, reads[k]);
        int how = n % 4; note(how == 0 ? "A rolls back" : how == 1 ? "A commits" : how == 2 ? "A's commit conflicts, A rolls back" : "A's prepare fails");
        a->w.run([&] { if (how == 0) a->db->rollback(); else if (how == 3) { shimFault = [](const string& s) { return s.rfind("INSERT INTO journal", 0) == 0 ? SQLITE_ERROR : 0; }; a->db->prepare(); shimFault = nullptr; } else { a->db->prepare(); if (how == 2) shimFault = [](const string& s) { return s == "COMMIT" ? SQLITE_BUSY_SNAPSHOT : 0; }; a->db->commit(); shimFault = nullptr; if (how == 2) a->db->rollback(); } }, "ending a transaction");
        note("B changes the data and commits"); b->w.run([&] { b->db->beginTransaction(); b->db->write("INSERT INTO t (v) VALUES ('b');"); b->db->write("INSERT INTO u VALUES (3);"); if (b->db->prepare()) b->db->commit(); else b->db->rollback(); });
        note("A reads again"); for (int k = 0; k < 6; k++) doRead(a, reads[k]);
        note("A begins again"); a->w.run([&] { a->db->beginTransaction(); }); for (int k = 0; k < 6; k++) doRead(a, reads[k]); a->w.run([&] { a->db->rollback(); });
    }
    printf("COUNT %d operations, %d commits, in %d sequences\n", ops, commits, rounds); fflush(stdout); _exit(0);
}
