// Replay / failing-input search for P12 and P13: random commands run through the stages of the real BedrockCore on a real database
// handle, misbehaving in every way a plugin can, compared after every stage with oracles written from the property statements.
#include <bits/stdc++.h>
#include <signal.h>
#include <libstuff/libstuff.h>
#define private public
#define protected public
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLiteServer.h>
#include <BedrockCore.h>
#include <BedrockServer.h>
#include <BedrockPlugin.h>
#include <BedrockCommand.h>
#undef private
#undef protected
#include <libstuff/sqlite3.h>
#include "shim.h"
#include "util.h"
using namespace std;
extern "C" int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; } // keep the crash reporting of shim.cpp
static string pid_; static Rng R(1); static string dir_; static vector<string> steps_; static vector<string> sql_;
static bool on(const char* p) { return pid_ == p || pid_ == "all"; }
static string story() { string o; for (auto& s : steps_) o += "\n    " + s; return o; }
#define REQ(P, c, ...) do { if (on(P) && !(c)) { printf("VIOLATED: %s: ", P); printf(__VA_ARGS__); printf("\n  history:%s\n", story().c_str()); fflush(stdout); _exit(1); } } while (0)
static void note(const string& s) { steps_.push_back(s); }
static void hung(int) { const char m[] = "\nVIOLATED: P13: a command past its deadline keeps running\n"; if (on("P13")) { (void) !write(1, m, sizeof(m) - 1); printf("  history:%s\n", story().c_str()); _exit(1); } _exit(0); }
enum End { RETURN, SEXC, SEMPTY, TIMEOUT, CONSTRAINT, STDEXC, INTEXC, NEND };
static const char* endn[] = {"returns", "throws an SException", "throws an SException without method", "throws a timeout_error", "throws a constraint_error", "throws a runtime_error", "throws an int"};
struct Script { vector<int> acts; End end = RETURN; bool done = false; string method, excMethod; };
static SQLite* DB; static bool queryOnly_, noop_; static BedrockCore* CORE;
static bool handlerFn(int, const char*, string&) { return false; }
// what the modes of the connection really are
static bool isQueryOnly(SQLite* db) { sqlite3_stmt* s; bool r = false; auto* a = db->_shouldAbortPtr; db->_shouldAbortPtr = nullptr; auto t = db->_timeoutLimit; db->_timeoutLimit = 0; if (!sqlite3_prepare_v2(db->_db, "PRAGMA query_only", -1, &s, nullptr)) { if (sqlite3_step(s) == SQLITE_ROW) r = sqlite3_column_int(s, 0); sqlite3_finalize(s); } db->_shouldAbortPtr = a; db->_timeoutLimit = t; return r; }
struct Plugin : BedrockPlugin { string n = "TEST"; Plugin(BedrockServer& s) : BedrockPlugin(s) {} const string& getName() const override { return n; } unique_ptr<BedrockCommand> getCommand(SQLiteCommand&&) override { return nullptr; } };
struct Cmd : BedrockCommand {
    Script sc[4]; int ran[4] = {0, 0, 0, 0}; bool rewriting = false, rewriteHandler = true, quiet = false, emptyCommit = false; uint64_t callStart = 0, beginAt = 0; bool exclusive = false; string expectedText; bool sawText = false; bool conflictsWithDead = false; STable contentAt; string methodAt; bool abortAt = false; string textAt; bool insideAt = false; uint64_t procLimit = 5000; bool beganHere = false; bool slow = false, ended = false;
    Cmd(SQLiteCommand&& c, BedrockPlugin* p) : BedrockCommand(move(c), p) {}
    bool shouldEnableQueryRewriting(const SQLite&, bool (**h)(int, const char*, string&)) override { if (rewriting) *h = handlerFn; return rewriting; }
    bool shouldSuppressTimeoutWarnings() override { return quiet; }
    void act(SQLite& db, int stage) {
        ran[stage]++; Script& s = sc[stage]; uint64_t n = STimeNow(); bool read = stage != 2;
        REQ("P12", ran[stage] == 1, "the stage ran twice");
        if (read) REQ("P12", isQueryOnly(&db), "plugin code of a read-only stage runs with writes allowed"); else REQ("P12", !isQueryOnly(&db), "process runs with writes refused");
        if (stage == 1 || stage == 2) REQ("P12", db.insideTransaction(), "%s runs outside a transaction", stage == 1 ? "peek" : "process");
        REQ("P12", read ? _inDBReadOperation : _inDBWriteOperation, "the command is not marked as running a stage");
        REQ("P12", db._shouldAbortPtr == &shouldAbort, "the command can not be aborted while its plugin code runs");
        REQ("P12", !(socket && shouldAbort), "a command whose client is gone is run");
        if (stage == 2) { REQ("P12", db._noopUpdateMode == request.isSet("mockRequest"), "no-op mode is %d for a %s request", db._noopUpdateMode, request.isSet("mockRequest") ? "mocked" : "normal"); REQ("P12", db._enableRewrite == rewriting, "query rewriting is %d", db._enableRewrite); }
        uint64_t slack = n - callStart;
        REQ("P13", db._timeoutLimit != 0, "plugin code runs without a deadline"); REQ("P13", timeout() > callStart, "a command past its deadline is run");
        REQ("P13", db._timeoutLimit <= timeout() + slack + 1000, "the handle's deadline is %lld us after the command's", (long long) (db._timeoutLimit - timeout()));
        if (stage == 2 && !(exclusive && beganHere)) REQ("P13", (int64_t) (db._timeoutLimit - n) <= (int64_t) procLimit * 1000, "process may run %lld us with a process timeout of %llu ms", (long long) (db._timeoutLimit - n), (unsigned long long) procLimit);
        if (exclusive && beganHere) { uint64_t lim = isSynchronous ? 20000 : 5000; REQ("P13", (int64_t) (timeout() - n) <= (int64_t) lim * 1000 && (int64_t) (db._timeoutLimit - n) <= (int64_t) (lim * 1000 + slack + 1000), "a command holding the commit lock exclusively may run another %lld us", (long long) (timeout() - n)); }
        for (int a : s.acts) { SQResult r; switch (a) {
            case 0: note("  reads"); db.read("SELECT COUNT(*) FROM t;", r); break;
            case 1: { note("  tries to write"); bool ok = false; try { ok = db.write("INSERT INTO t (v) VALUES ('x');"); } catch (const SException&) { if (stage == 1 || stage == 2) throw; } if (read) REQ("P12", !ok, "a read-only stage wrote to the database"); break; }
            case 2: note("  sets the answer"); response.methodLine = s.method; break;
            case 3: note("  sets content"); jsonContent["k"] = to_string(R.below(9)); break;
            case 4: note("  asks to be peeked again"); repeek = true; break;
            case 5: note("  client disconnects"); shouldAbort = true; break;
            case 6: note("  waits for HTTPS requests"); waitForHTTPSRequests(db); break;
            case 7: { note("  runs an endless query"); slow = true; alarm(25); db.read("WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c) SELECT COUNT(*) FROM c;", r); alarm(0); REQ("P13", false, "an endless query returned"); break; }
            case 8: note("  violates a constraint"); db.write("INSERT INTO u VALUES (1);"); db.write("INSERT INTO u VALUES (1);"); break;
        } }
        methodAt = response.methodLine; abortAt = socket && shouldAbort; textAt = db._uncommittedQuery; contentAt = jsonContent; insideAt = db.insideTransaction();
        ended = true; note(string("  ") + endn[s.end]);
        switch (s.end) { case SEXC: throw SException("f", 1, true, s.excMethod, {{"h", "1"}}, "body"); case SEMPTY: throw SException("f", 1, false, ""); case TIMEOUT: throw SQLite::timeout_error("t", 5000); case CONSTRAINT: throw SQLite::constraint_error(); case STDEXC: throw runtime_error("r"); case INTEXC: throw 7; default: break; }
    }
    void prePeek(SQLite& db) override { act(db, 0); } bool peek(SQLite& db) override { act(db, 1); return sc[1].done; } void process(SQLite& db) override { act(db, 2); } void postProcess(SQLite& db) override { act(db, 3); }
};
static const char* stn[] = {"prePeek", "peek", "process", "postProcess"};
static void handleClean(const char* st, Cmd* c) {
    SQLite* d = DB; auto* p = d->_shouldAbortPtr;
    REQ("P12", !isQueryOnly(d), "after %s the connection still refuses writes", st); REQ("P12", d->_timeoutLimit == 0 && d->_timeoutStart == 0, "after %s a deadline is left on the handle", st); REQ("P12", !p, "after %s the handle still refers to the command's abort flag", st);
    REQ("P12", !c->_inDBReadOperation, "after %s the command is still marked as reading", st);
    if (!strcmp(st, "process")) { REQ("P12", !c->_inDBWriteOperation, "after %s the command is still marked as writing", st); REQ("P12", !d->_noopUpdateMode, "after %s no-op mode is still on", st); REQ("P12", !d->_enableRewrite && !d->_rewriteHandler, "after %s query rewriting is still on", st); string last; for (auto& s : sql_) if (s.find("noop_update=") != string::npos) last = s; REQ("P12", last.find("ON") == string::npos, "after %s the connection still ignores updates", st); }
}
static void answers(Cmd* c, int st, bool expired, bool gone, bool beginFails, bool realTimeout) {
    Script& s = c->sc[st]; string m = c->response.methodLine; bool ran = c->ran[st];
    if (gone && !expired) { REQ("P12", !ran, "a command whose client is gone is run"); REQ("P12", m == "556 Aborted", "a command whose client is gone answers '%s'", m.c_str()); return; }
    if (expired) { REQ("P13", !ran, "a command past its deadline is run"); REQ("P13", m.rfind(gone ? "55" : "555 Timeout", 0) == 0, "a command past its deadline answers '%s'", m.c_str()); return; }
    if (!ran) return;
    if (s.end == RETURN && c->abortAt) REQ("P12", m == "556 Aborted", "a command whose client left while it ran answers '%s'", m.c_str());
}
static unique_ptr<BedrockCommand> make(BedrockPlugin* pl, Cmd*& c) {
    SData rq("TestCommand" + to_string(R.below(9))); if (R.p(25)) rq["mockRequest"] = "true"; bool shortT = R.p(8); if (shortT) rq["timeout"] = to_string(R.p(50) ? 1 + R.below(3) : -5); else if (R.p(30)) rq["timeout"] = to_string(3000 + R.below(200000)); else if (R.p(10)) rq["Connection"] = "forget";
    uint64_t pl_ = 5000; if (R.p(20)) { pl_ = R.p(20) ? 0 : 50 + R.below(9000); rq["processTimeout"] = to_string(pl_); }
    bool old = R.p(5); if (old) rq["commandExecuteTime"] = to_string(STimeNow() - 400'000'000);
    int64_t want; { int64_t b = rq.isSet("timeout") ? rq.calc("timeout") : rq.isSet("Connection") ? 3600000 : 110000; want = b * 1000; }
    uint64_t t0 = STimeNow(); c = new Cmd(SQLiteCommand(move(rq)), pl); uint64_t t1 = STimeNow(); unique_ptr<BedrockCommand> u(c); c->procLimit = pl_; c->_commitEmptyTransactions = R.p(6); c->rewriting = R.p(25); c->quiet = R.p(20); c->isSynchronous = R.p(15); c->socket = R.p(60) ? (STCPManager::Socket*) 16 : nullptr; c->response.methodLine = ""; c->complete = false;
    int64_t tt = c->timeout(); if (old) REQ("P13", tt == (int64_t) c->scheduledTime + want, "the deadline of a rescheduled command is wrong"); else REQ("P13", tt >= (int64_t) t0 + want && tt <= (int64_t) t1 + want, "the deadline is %lld us away, not %lld", (long long) (tt - (int64_t) t0), (long long) want);
    if (R.p(4)) c->shouldAbort = true;
    for (int i = 0; i < 4; i++) { Script& s = c->sc[i]; static const char* ms[] = {"200 OK", "202 Fine", "404 Nope", ""}; s.method = ms[R.below(4)]; static const char* em[] = {"402 Problem", "500 Bad", "200 OK", "409 _WARN_ x"}; s.excMethod = em[R.below(4)]; s.done = R.p(50); s.end = R.p(65) ? RETURN : (End) R.below(NEND); int n = R.below(4); for (int k = 0; k < n; k++) { int a = R.below(8); if (a == 6 && i != 2 && R.p(50)) a = 6; else if (a == 6) a = 0; if (a == 7) a = R.p(3) ? 7 : 0; if (a == 5 && R.p(60)) a = 0; if (a == 1 && i != 2 && R.p(70)) a = 0; if (i == 2 && R.p(8)) a = 8; s.acts.push_back(a); } }
    bool endless = false; for (auto& s : c->sc) for (int a : s.acts) endless |= a == 7; if (endless) { c->setTimeout(60); }
    return u;
}
static void runOne(BedrockPlugin* pl, int64_t& n) {
    Cmd* c; steps_.clear(); sql_.clear(); unique_ptr<BedrockCommand> u = make(pl, c); note("command " + c->request.serialize().substr(0, 120) + (c->socket ? " from a client" : "") + (c->rewriting ? " rewriting" : "") + (c->isSynchronous ? " synchronous" : ""));
    bool excl = R.p(25); shimFault = nullptr;
    auto begin = [&](const char* st) { note(string("stage ") + st + (excl ? " (exclusive)" : "")); c->callStart = STimeNow(); c->exclusive = excl; c->ended = false; n++; };
    auto faulty = [&] { bool f = R.p(5); if (f) { note("(BEGIN fails)"); shimFault = [](const string& s) { return s.rfind("BEGIN", 0) == 0 ? SQLITE_ERROR : 0; }; } return f; };
    auto expired = [&](bool proc) { return (int64_t) c->timeout() <= (int64_t) c->callStart || (proc && c->procLimit == 0); };
    auto mayExpire = [&] { return (int64_t) c->timeout() <= (int64_t) STimeNow(); };
    if (R.p(15)) { bool e0 = mayExpire(); auto pm = c->response.methodLine; uint64_t t = c->timeout(); bool r = BedrockCore::isTimedOut(u, DB); bool e1 = mayExpire(); if (e0) REQ("P13", r, "an expired command is reported in time"); if (!e1) REQ("P13", !r, "a command in time is reported expired"); REQ("P13", c->timeout() == t, "the deadline moved"); if (r) { REQ("P13", c->complete && c->response.methodLine == "555 Timeout", "an expired command is not answered"); return; } else REQ("P13", !c->complete && c->response.methodLine == pm, "a command in time was touched"); }
    bool gone = c->socket && c->shouldAbort;
    auto protect = [&](const char* st, auto f) { try { f(); } catch (...) { REQ("P12", false, "an exception escaped from %s", st); } shimFault = nullptr; alarm(0); };
    if (R.p(35)) { begin("prePeek"); bool ex = expired(false); bool comp0 = c->complete; string m0 = c->response.methodLine; protect("prePeek", [&] { CORE->prePeekCommand(u, R.p(20)); }); handleClean("prePeek", c); answers(c, 0, ex, gone, false, false);
        End e = c->sc[0].end; string m = c->response.methodLine; bool ok = c->ran[0] && c->methodAt == m && e == RETURN && !c->abortAt && !c->slow; if (c->ran[0] && c->ended) { if (e == TIMEOUT) REQ("P12", m == "555 Timeout prePeeking command", "a timeout in prePeek answers '%s'", m.c_str()); if (e == STDEXC || e == INTEXC) REQ("P12", m == "500 Unhandled Exception" || m.rfind("5", 0) == 0, "an unknown exception answers '%s'", m.c_str()); if (e != RETURN) REQ("P12", c->complete, "a failed prePeek does not complete the command"); }
        if (!c->ran[0]) REQ("P12", c->complete, "a prePeek that could not run does not complete the command"); if (c->complete) { REQ("P12", !DB->insideTransaction(), "prePeek left a transaction open"); return; } (void) ok; }
    gone = c->socket && c->shouldAbort;
    begin("peek"); c->slow = false; c->beganHere = true; bool ex = expired(false); bool bf = faulty(); BedrockCore::RESULT r = BedrockCore::RESULT::INVALID; protect("peek", [&] { r = CORE->peekCommand(u, excl); }); handleClean("peek", c); answers(c, 1, ex, gone, bf, false);
    { End e = c->sc[1].end; string m = c->response.methodLine; bool SP = r == BedrockCore::RESULT::SHOULD_PROCESS; REQ("P12", SP || r == BedrockCore::RESULT::COMPLETE, "peek returned %d", (int) r);
      bool ranOk = c->ran[1] && e == RETURN && c->textAt == DB->_uncommittedQuery;
      if (SP) REQ("P12", c->ran[1] && e == RETURN && !c->sc[1].done && !c->abortAt, "a command that %s goes on to process", !c->ran[1] ? "could not be peeked" : e != RETURN ? "failed in peek" : c->abortAt ? "was abandoned" : "completed in peek");
      if (!SP) { REQ("P12", c->complete, "peek completed but the command is not"); REQ("P12", !DB->insideTransaction(), "a command completed in peek leaves its transaction open"); }
      if (c->ended && e == RETURN && !c->sc[1].done && !c->abortAt) REQ("P12", SP, "a command that has to be processed is not");
      if (c->ran[1] && e != RETURN) REQ("P12", !c->repeek, "a command that failed in peek is peeked again");
      if (c->ended) { if (e == TIMEOUT) REQ("P12", m == "555 Timeout peeking command", "a timeout in peek answers '%s'", m.c_str()); if (!SP && e == RETURN && c->sc[1].done && !c->abortAt) REQ("P12", m == (c->methodAt.empty() ? "200 OK" : c->methodAt), "a successful peek answers '%s'", m.c_str()); }
      REQ("P12", m != "" || SP || e == SEMPTY, "a completed command has no answer"); (void) ranOk; if (!SP) return; }
    if (R.p(20)) { note("transaction closed between peek and process"); DB->rollback(); }
    gone = c->socket && c->shouldAbort; c->methodAt = ""; c->textAt = "";
    begin("process"); c->slow = false; c->beganHere = !DB->insideTransaction(); ex = expired(true); if (!DB->insideTransaction()) bf = faulty(); protect("process", [&] { r = CORE->processCommand(u, excl); }); handleClean("process", c); answers(c, 2, ex, gone, bf, false);
    { End e = c->sc[2].end; string m = c->response.methodLine; bool NC = r == BedrockCore::RESULT::NEEDS_COMMIT; REQ("P12", NC || r == BedrockCore::RESULT::NO_COMMIT_REQUIRED, "process returned %d", (int) r);
      bool mock = c->request.isSet("mockRequest");
      if (NC) { REQ("P12", c->ran[2] && e == RETURN && !c->abortAt, "a command that %s is committed", e != RETURN ? "failed" : "was abandoned"); REQ("P12", !c->complete, "a command waiting for its commit is complete"); REQ("P12", DB->insideTransaction(), "nothing is open to commit"); if (!mock) REQ("P12", DB->_uncommittedQuery == c->textAt, "what will be committed is not what the command wrote"); if (!mock && !c->_commitEmptyTransactions) REQ("P12", DB->_uncommittedQuery != "", "an empty transaction is committed"); }
      else { REQ("P12", c->complete, "a command without a commit is not complete"); REQ("P12", !DB->insideTransaction() && DB->_uncommittedQuery.empty(), "a command without a commit leaves its transaction open"); }
      if (c->ended && e == RETURN && !c->abortAt && c->textAt != "") REQ("P12", NC, "a successful write is dropped");
      if (c->ended) { if (e == CONSTRAINT) REQ("P12", m == "400 Unique Constraints Violation", "a constraint violation answers '%s'", m.c_str()); if (e == TIMEOUT) REQ("P12", m == "555 Timeout processing command", "a timeout answers '%s'", m.c_str()); if (e == STDEXC || e == INTEXC) REQ("P12", m == "500 Unhandled Exception", "an unknown exception answers '%s'", m.c_str()); if (e == SEXC) REQ("P12", m == c->sc[2].excMethod, "a command's own exception answers '%s'", m.c_str()); }
      REQ("P12", m != "" || e == SEMPTY, "a processed command has no answer");
      if (NC) { if (R.p(60)) { note("commit"); DB->prepare(); DB->commit(); } else { note("rolled back"); DB->rollback(); } } }
    gone = c->socket && c->shouldAbort;
    if (R.p(40)) { begin("postProcess"); c->slow = false; ex = expired(false); protect("postProcess", [&] { CORE->postProcessCommand(u, R.p(20)); }); handleClean("postProcess", c); answers(c, 3, ex, gone, false, false); REQ("P12", c->complete, "after postProcess the command is not complete"); End e = c->sc[3].end; string m = c->response.methodLine; if (c->ended && e == TIMEOUT) REQ("P12", m == "555 Timeout postProcessing command", "a timeout in postProcess answers '%s'", m.c_str()); }
    REQ("P12", !DB->insideTransaction(), "a transaction is left open after the last stage"); shimFault = nullptr;
}
// one deterministic check of each answer
static void fixed(BedrockPlugin* pl) {
    for (int st = 0; st < 4; st++) for (int e = 0; e < NEND; e++) for (int mock = 0; mock < 2; mock++) for (int w = 0; w < 2; w++) for (int sock = 0; sock < 3; sock++) {
        steps_.clear(); sql_.clear(); SData rq("Fixed"); if (mock) rq["mockRequest"] = "true"; Cmd* c = new Cmd(SQLiteCommand(move(rq)), pl); unique_ptr<BedrockCommand> u(c); note(string("command in ") + stn[st] + (mock ? " mocked" : "")); c->callStart = STimeNow(); c->beganHere = true; c->socket = sock ? (STCPManager::Socket*) 16 : nullptr; Script& s = c->sc[st]; s.end = (End) e; s.excMethod = "417 Mine"; s.done = true; if (w && st == 2) s.acts = {1}; if (w && st != 2) { s.acts = {2, 4}; s.method = "299 Set"; } if (sock == 2) s.acts.push_back(5);
        c->rewriting = w; BedrockCore::RESULT r = BedrockCore::RESULT::INVALID; try { if (st == 0) CORE->prePeekCommand(u, false); if (st == 1) r = CORE->peekCommand(u, false); if (st == 2) r = CORE->processCommand(u, false); if (st == 3) CORE->postProcessCommand(u, false); } catch (...) { REQ("P12", false, "an exception escaped from %s", stn[st]); }
        handleClean(stn[st], c); string m = c->response.methodLine, want; static const char* to[] = {"555 Timeout prePeeking command", "555 Timeout peeking command", "555 Timeout processing command", "555 Timeout postProcessing command"};
        string set = w && st != 2 ? "299 Set" : "";
        switch (e) { case RETURN: want = sock == 2 ? "556 Aborted" : set != "" ? set : st == 1 || st == 2 ? "200 OK" : ""; break; case SEXC: want = "417 Mine"; break; case SEMPTY: want = set; break; case TIMEOUT: want = to[st]; break; case CONSTRAINT: want = st == 2 ? "400 Unique Constraints Violation" : "500 Unhandled Exception"; break; default: want = "500 Unhandled Exception"; }
        REQ("P12", m == want, "%s that %s answers '%s' instead of '%s'", stn[st], endn[e], m.c_str(), want.c_str());
        if (e == SEXC) REQ("P12", c->response["h"] == "1" && c->response.content == "body", "the exception's headers and body are lost");
        if (st == 2) { bool nc = e == RETURN && sock != 2 && (w || mock); REQ("P12", (r == BedrockCore::RESULT::NEEDS_COMMIT) == nc, "process that %s and %s returned %d", w ? "wrote" : "wrote nothing", endn[e], (int) r); REQ("P12", c->complete == !nc && DB->insideTransaction() == nc, "complete=%d, transaction %s", c->complete, DB->insideTransaction() ? "open" : "closed"); DB->rollback(); }
        if (st == 1) { REQ("P12", r == BedrockCore::RESULT::COMPLETE && c->complete && !DB->insideTransaction(), "a completed peek leaves complete=%d and its transaction %s", c->complete, DB->insideTransaction() ? "open" : "closed"); if (e != RETURN) REQ("P12", !c->repeek, "a failed peek is repeated"); }
        if (st == 0) REQ("P12", c->complete == (e != RETURN || sock == 2), "prePeek that %s left complete=%d", endn[e], c->complete);
        if (st == 3) REQ("P12", c->complete, "postProcess left the command incomplete");
    }
}
static void commits(SQLiteNode* N) {
    static const SQLiteNodeState all[] = {SQLiteNodeState::SEARCHING, SQLiteNodeState::SYNCHRONIZING, SQLiteNodeState::WAITING, SQLiteNodeState::STANDINGUP, SQLiteNodeState::LEADING, SQLiteNodeState::STANDINGDOWN, SQLiteNodeState::SUBSCRIBING, SQLiteNodeState::FOLLOWING};
    static atomic<int> called; called = 0;
    static SQLiteNode* moving; static SQLiteNodeState to; moving = N;
    for (auto st : all) for (int f : {0, 1, 2, 4}) for (int nt = 0; nt < 4; nt++) { if (nt > 1 && st != SQLiteNodeState::LEADING) continue; to = nt == 2 ? SQLiteNodeState::STANDINGDOWN : nt == 3 ? SQLiteNodeState::SEARCHING : st;
        steps_.clear(); N->_state = st; SQLite& db = *DB; uint64_t c0 = db.getCommitCount(); string h0 = db.getCommittedHash(); db.beginTransaction(); db.write("INSERT INTO t (v) VALUES ('c');"); static const char* fn[] = {"all goes well", "the journal write fails", "COMMIT reports a conflict", "COMMIT fails", "commits are disabled"}; note(string("commit in state ") + SQLiteNode::stateName(st) + ", " + fn[f] + (nt > 1 ? ", stops leading while preparing" : nt ? ", with an on-prepare handler" : ""));
        if (f == 1) shimFault = [](const string& s) { return s.rfind("INSERT INTO journal", 0) == 0 ? SQLITE_ERROR : 0; }; if (f == 2) shimFault = [](const string& s) { return s == "COMMIT" ? SQLITE_BUSY_SNAPSHOT : 0; }; if (f == 4) db._sharedData._commitEnabled = false;
        uint64_t id = 0; string hash; bool r = CORE->commit(*N, id, hash, "x", nt, [](SQLite&, int64_t) { called++; moving->_state = to; }, chrono::seconds(5), nullptr); shimFault = nullptr; db._sharedData._commitEnabled = true;
        bool want = st == SQLiteNodeState::LEADING && f == 0 && nt < 2; REQ("P12", r == want, "commit returned %d", r); REQ("P12", !db.insideTransaction() && db._uncommittedQuery.empty() && db._uncommittedHash.empty() && !db._mutexLocked, "commit left its transaction open"); REQ("P12", db.getCommitCount() == c0 + want, "the commit count went from %llu to %llu", (unsigned long long) c0, (unsigned long long) db.getCommitCount()); if (!want) REQ("P12", db.getCommittedHash() == h0, "a failed commit changed the hash"); else REQ("P12", id == c0 + 1 && hash == db.getCommittedHash(), "the committed number or hash is not what was reported"); REQ("P12", !db._onPrepareHandler && !db._shouldNotifyPluginsOnPrepare, "the on-prepare handler is still installed"); REQ("P12", db._sharedData.commitLock.try_lock(), "the commit lock is still held"); db._sharedData.commitLock.unlock();
    }
    REQ("P12", called > 0, "the on-prepare handler never ran");
}
static void waiting(BedrockPlugin* pl) {
    static SStandaloneHTTPSManager mgr;
    for (int n = 0; n < 60; n++) {
        steps_.clear(); Cmd* c = new Cmd(SQLiteCommand(SData("Wait")), pl); unique_ptr<BedrockCommand> u(c); bool inTx = R.p(50), rd = R.p(60), wr = !rd && R.p(50), late = R.p(30), fail = R.p(20), abort = R.p(30); c->_inDBReadOperation = rd; c->_inDBWriteOperation = wr; c->setTimeout(late ? 0 : 30); c->socket = R.p(50) ? (STCPManager::Socket*) 16 : nullptr; if (abort) c->shouldAbort = true;
        vector<SHTTPSManager::Transaction*> ts; int k = R.below(5); for (int i = 0; i < k; i++) { auto t = make_unique<SHTTPSManager::Transaction>(mgr, "id"); t->response = R.p(50) ? 200 : 0; if (R.p(20)) { t->scheduledStart = STimeNow() + 10000; t->startFunc = [](SHTTPSManager::Transaction& x) { x.response = 201; }; t->response = 0; } ts.push_back(t.get()); c->httpsRequests.push_back(move(t)); }
        if (R.p(40)) c->areHttpsRequestsComplete();
        if (inTx) DB->beginTransaction(R.p(30) ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED); auto type = DB->_lastTransactionType; note(string("wait for ") + to_string(k) + " requests" + (inTx ? " inside a transaction" : "") + (rd ? " while reading" : wr ? " while writing" : "") + (late ? " past the deadline" : "") + (fail ? " (BEGIN fails)" : "")); if (fail) shimFault = [](const string& s) { return s.rfind("BEGIN", 0) == 0 ? SQLITE_ERROR : 0; };
        bool threw = false; alarm(25); try { c->waitForHTTPSRequests(*DB); } catch (const SException&) { threw = true; } alarm(0); shimFault = nullptr;
        if (inTx && !rd) { REQ("P13", threw, "a wait inside a write transaction was allowed"); REQ("P13", DB->insideTransaction(), "a refused wait ended the transaction"); }
        else { bool all = true; for (auto* t : ts) all &= t->response != 0; REQ("P13", all, "the wait ended with an unanswered request"); if (!threw) REQ("P13", DB->insideTransaction() == inTx && (!inTx || DB->_lastTransactionType == type), "the wait left %s transaction, of type %d", DB->insideTransaction() ? "a" : "no", (int) DB->_lastTransactionType); REQ("P13", threw == (inTx && fail), "the wait %s", threw ? "failed" : "succeeded without a transaction"); REQ("P13", c->areHttpsRequestsComplete() == all, "completeness of the requests is misreported"); }
        DB->rollback();
        bool t2 = false; try { c->waitForHTTPSRequests(); } catch (const SException&) { t2 = true; } REQ("P13", t2 == (rd || wr), "waiting without a database handle was %s", t2 ? "refused" : "allowed");
    }
    for (int n = 0; n < 400; n++) { steps_.clear(); Cmd* c = new Cmd(SQLiteCommand(SData("Complete")), pl); unique_ptr<BedrockCommand> u(c); vector<SHTTPSManager::Transaction*> ts; int k = R.below(6); for (int i = 0; i < k; i++) { auto t = make_unique<SHTTPSManager::Transaction>(mgr, "id"); t->response = R.p(60) ? 200 : 0; ts.push_back(t.get()); c->httpsRequests.push_back(move(t)); } for (int j = 0; j < 5; j++) { bool all = true; for (auto* t : ts) all &= t->response != 0; REQ("P13", c->areHttpsRequestsComplete() == all, "%d requests are reported %s", k, all ? "incomplete" : "complete"); if (k) ts[R.below(k)]->response = 200; if (R.p(20)) { auto t = make_unique<SHTTPSManager::Transaction>(mgr, "id"); t->response = R.p(50) ? 200 : 0; ts.push_back(t.get()); c->httpsRequests.push_back(move(t)); k++; } } }
}
static void decreasing(BedrockPlugin* pl) {
    for (int n = 0; n < 300; n++) { steps_.clear(); Cmd* c = new Cmd(SQLiteCommand(SData("D")), pl); unique_ptr<BedrockCommand> u(c); int64_t ms = R.p(10) ? 0 : 1000 + R.below(30000); uint64_t lim = R.p(10) ? 0 : 1000 + R.below(30000); c->setTimeout(ms); uint64_t t0 = c->timeout(); note("deadline " + to_string(ms) + " ms away decreased to " + to_string(lim)); uint64_t a = STimeNow(); bool threw = false; DB->_timeoutLimit = 77; try { CORE->decreaseCommandTimeout(u, lim); } catch (const SException&) { threw = true; } uint64_t b = STimeNow();
        if (ms == 0 || lim == 0) REQ("P13", threw, "an expired deadline was accepted"); else { REQ("P13", !threw, "a deadline in time was refused"); if ((uint64_t) ms > lim + 1000) { REQ("P13", c->timeout() >= a + lim * 1000 && c->timeout() <= b + lim * 1000, "the deadline is now %lld us away", (long long) (c->timeout() - a)); REQ("P13", DB->_timeoutLimit >= a + lim * 1000 - 1000 && DB->_timeoutLimit <= b + lim * 1000 + 1000, "the handle's deadline is not the command's"); } if ((uint64_t) ms + 1000 < lim) REQ("P13", c->timeout() == t0 && DB->_timeoutLimit == 77, "a shorter deadline was changed"); } DB->clearTimeout();
        try { auto r = BedrockCore::getRemainingTime(u, n % 2); REQ("P13", r.count() > 0 && (n % 2 == 0 || r.count() <= 5000000) && r.count() <= (int64_t) (c->timeout() - b), "the remaining time is reported as %lld us", (long long) r.count()); } catch (const SException& e) { REQ("P13", c->timeout() <= STimeNow() && e.method == "555 Timeout", "an early timeout"); } }
}
static void interrupts() {
    for (int n = 0; n < 40; n++) { steps_.clear(); atomic<bool> ab(false); bool abort = n % 2, inTx = n % 4 > 1, write = inTx && n % 8 > 4; note(abort ? "endless statement aborted" : "endless statement past its deadline"); SQLite& db = *DB; if (inTx) db.beginTransaction(); if (abort) db.setAbortRef(ab); else db.setTimeout((uint64_t) 15000); thread t; if (abort) t = thread([&] { usleep(15000); ab = true; }); int how = 0; alarm(25); SQResult r;
        try { if (write) db.write("INSERT INTO t (v) SELECT x FROM (WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c) SELECT COUNT(*) AS x FROM c);"); else db.read("WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c) SELECT COUNT(*) FROM c;", r); } catch (const SQLite::timeout_error&) { how = 1; } catch (const SException& e) { how = 2; } catch (...) { how = 3; } alarm(0); if (abort) t.join();
        REQ("P13", how == (abort ? 2 : 1), "the interrupted statement %s", how == 0 ? "looks successful" : "reports another error"); db.clearTimeout(); db.clearAbortRef(); db.rollback();
        db.setTimeout((uint64_t) 1); usleep(3000); how = 0; try { db.read("SELECT 1;", r); } catch (const SQLite::timeout_error&) { how = 1; } catch (...) {} REQ("P13", how == 1, "a statement past its deadline is answered"); db.clearTimeout(); }
}
int main(int argc, char** argv) {
    pid_ = argv[1]; string tier = argv[2]; R = Rng(atoll(argv[3])); dir_ = string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); signal(SIGALRM, hung); sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM); pthread_sigmask(SIG_UNBLOCK, &m, nullptr); shimDeathNote = [] { return "  history:" + story(); };
    SData args("x"); BedrockServer* server = new BedrockServer(SQLiteNodeState::LEADING, args); server->_shutdownState.store(BedrockServer::RUNNING); Plugin* pl = new Plugin(*server);
    shared_ptr<SQLitePool> pool = make_shared<SQLitePool>(10, dir_ + "/db", 1000000, 5000, 0); DB = &pool->getBase(); CORE = new BedrockCore(*DB, *server);
    DB->beginTransaction(); DB->write("CREATE TABLE t (id INTEGER PRIMARY KEY, v); CREATE TABLE u (x UNIQUE);"); DB->prepare(); DB->commit();
    atomic<int> conf(100); SQLiteNode* node = new SQLiteNode(*server, pool, "test", "", "", conf, 1000000000, "1.0");
    shimTrace = &sql_; fixed(pl); decreasing(pl); commits(node); int64_t n = 0; int rounds = tier == "thorough" ? 60000 : 5000; for (int i = 0; i < rounds; i++) runOne(pl, n);
    waiting(pl); interrupts();
    printf("COUNT %lld stages of %d commands\n", (long long) n, rounds); fflush(stdout); _exit(0);
}
