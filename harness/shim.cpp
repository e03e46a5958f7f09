#include "shim.h"
#include <libstuff/sqlite3.h>
#include <cstring>
#include <strings.h>
#include <unistd.h>
#include <signal.h>
std::function<int(const std::string&)> shimFault;
std::vector<std::string>* shimTrace = nullptr;
bool shimConcurrent = false;
extern "C" {
int __real_sqlite3_prepare_v2(sqlite3*, const char*, int, sqlite3_stmt**, const char**);
int __real_sqlite3_prepare_v3(sqlite3*, const char*, int, unsigned, sqlite3_stmt**, const char**);
static const char* replacement(const char* z, int n) {
    std::string s(z, n < 0 ? strlen(z) : strnlen(z, n));
    if (shimConcurrent && (!strncasecmp(s.c_str(), "BEGIN CONCURRENT", 16) || !strncasecmp(s.c_str(), "COMMIT", 6) || !strncasecmp(s.c_str(), "ROLLBACK", 8))) return "SELECT 1;";
    if (!strncasecmp(s.c_str(), "BEGIN CONCURRENT", 16)) return "BEGIN;";
    if (!strncasecmp(s.c_str(), "PRAGMA journal_mode", 19) && strcasestr(s.c_str(), "wal2")) return "PRAGMA journal_mode = wal;";
    // the system build lacks DELETE ... LIMIT
    if (!strncasecmp(s.c_str(), "DELETE FROM journal", 19)) if (const char* l = strcasestr(s.c_str(), " LIMIT ")) { static thread_local std::string t; t = s.substr(0, l - s.c_str()); return t.c_str(); }
    return nullptr;
}
static int pre(const char* z, int n) {
    std::string s(z, n < 0 ? strlen(z) : strnlen(z, n));
    if (shimTrace) shimTrace->push_back(s);
    return shimFault ? shimFault(s) : 0;
}
int __wrap_sqlite3_prepare_v2(sqlite3* db, const char* z, int n, sqlite3_stmt** st, const char** tail) {
    if (int e = pre(z, n)) { *st = nullptr; if (tail) *tail = z + strlen(z); return e; }
    if (const char* r = replacement(z, n)) { int e = __real_sqlite3_prepare_v2(db, r, -1, st, nullptr); if (tail) *tail = z + strlen(z); return e; }
    return __real_sqlite3_prepare_v2(db, z, n, st, tail);
}
int __wrap_sqlite3_prepare_v3(sqlite3* db, const char* z, int n, unsigned f, sqlite3_stmt** st, const char** tail) {
    if (int e = pre(z, n)) { *st = nullptr; if (tail) *tail = z + strlen(z); return e; }
    if (const char* r = replacement(z, n)) { int e = __real_sqlite3_prepare_v3(db, r, -1, f, st, nullptr); if (tail) *tail = z + strlen(z); return e; }
    return __real_sqlite3_prepare_v3(db, z, n, f, st, tail);
}
const char* sqlite3_normalized_sql(sqlite3_stmt*) { return ""; }
void sqlite3_str_truncate(sqlite3_str*, int) {}
int mbedtls_ssl_is_handshake_over(struct mbedtls_ssl_context*) { return 1; }
}

std::function<std::string()> shimDeathNote;
static void died(int sig) { const char m[] = "\nVIOLATED: the code under test crashed or hit a fatal assertion\n"; (void) !write(1, m, sizeof(m) - 1); if (shimDeathNote) { auto f = shimDeathNote; shimDeathNote = nullptr; printf("%s\n", f().c_str()); } _exit(1); }
__attribute__((constructor)) void shimHandlers() { setvbuf(stdout, nullptr, _IONBF, 0); for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) { signal(s, died); sigset_t m; sigemptyset(&m); sigaddset(&m, s); pthread_sigmask(SIG_UNBLOCK, &m, nullptr); } }
extern "C" unsigned __wrap_sleep(unsigned) { usleep(200); return 0; }
