#include "fake_pq.hpp"
#include <libpq-fe.h>
#include <sqlite3.h>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <map>
#include <unistd.h>

namespace {
sqlite3* db = nullptr; pid_t owner = 0; bool refuse = false;
sqlite3* get_db()
{
    if (!db || owner != getpid()) { if (sqlite3_open(":memory:", &db) != SQLITE_OK) std::abort(); owner = getpid(); }
    return db;
}
std::string column_name(std::string n)
{
    // PostgreSQL names an aggregate column after the function
    auto p = n.find('('); if (p != std::string::npos) n = n.substr(0, p);
    std::string o; for (char c : n) if (c != '"' && c != ' ') o += (char)tolower(c);
    auto dot = o.rfind('.'); return dot == std::string::npos ? o : o.substr(dot + 1);
}
}
struct pg_conn { std::string error; std::map<std::string, std::string> prepared; bool ok = true; };
struct pg_result { ExecStatusType status = PGRES_EMPTY_QUERY; std::vector<std::string> names; std::vector<std::vector<std::pair<bool, std::string>>> rows; };

namespace fakepq {
std::vector<std::string> log;
void reset() { if (db && owner == getpid()) sqlite3_close(db); db = nullptr; get_db(); log.clear(); refuse = false; }
void sql(const std::string& s) { char* e = nullptr; if (sqlite3_exec(get_db(), s.c_str(), nullptr, nullptr, &e) != SQLITE_OK) { std::string m = e ? e : "error"; sqlite3_free(e); throw std::runtime_error("fake database: " + m); } }
void refuse_connections(bool yes) { refuse = yes; }
}

static pg_result* run(pg_conn* c, const std::string& text, int n, const char* const* values)
{
    auto* r = new pg_result; fakepq::log.push_back(text);
    const char* tail = text.c_str(); bool rows = false;
    while (tail && *tail) {
        sqlite3_stmt* st = nullptr;
        if (sqlite3_prepare_v2(get_db(), tail, -1, &st, &tail) != SQLITE_OK) { r->status = PGRES_FATAL_ERROR; c->error = sqlite3_errmsg(get_db()); return r; }
        if (!st) continue;
        for (int i = 0; i < n; ++i) { int k = sqlite3_bind_parameter_index(st, ("$" + std::to_string(i + 1)).c_str()); if (k) { if (values[i]) sqlite3_bind_text(st, k, values[i], -1, SQLITE_TRANSIENT); else sqlite3_bind_null(st, k); } }
        int cols = sqlite3_column_count(st); if (cols) { rows = true; r->names.clear(); r->rows.clear(); for (int i = 0; i < cols; ++i) r->names.push_back(column_name(sqlite3_column_name(st, i))); }
        int rc; while ((rc = sqlite3_step(st)) == SQLITE_ROW) { r->rows.emplace_back(); for (int i = 0; i < cols; ++i) { auto* t = sqlite3_column_text(st, i); r->rows.back().emplace_back(t == nullptr, t ? (const char*)t : ""); } }
        if (rc != SQLITE_DONE) { r->status = PGRES_FATAL_ERROR; c->error = sqlite3_errmsg(get_db()); sqlite3_finalize(st); return r; }
        sqlite3_finalize(st);
    }
    r->status = rows ? PGRES_TUPLES_OK : PGRES_COMMAND_OK; return r;
}

extern "C" {
PGconn* PQconnectdb(const char*) { auto* c = new pg_conn; c->ok = !refuse; if (refuse) c->error = "connection refused"; return c; }
PGconn* PQconnectdbParams(const char* const*, const char* const*, int) { return PQconnectdb(""); }
void PQfinish(PGconn* c) { delete c; }
ConnStatusType PQstatus(const PGconn* c) { return c && c->ok ? CONNECTION_OK : CONNECTION_BAD; }
char* PQerrorMessage(const PGconn* c) { return const_cast<char*>(c->error.c_str()); }
PGresult* PQexec(PGconn* c, const char* q) { return run(c, q, 0, nullptr); }
PGresult* PQexecParams(PGconn* c, const char* q, int n, const Oid*, const char* const* v, const int*, const int*, int) { return run(c, q, n, v); }
PGresult* PQprepare(PGconn* c, const char* name, const char* q, int, const Oid*) { c->prepared[name] = q; auto* r = new pg_result; r->status = PGRES_COMMAND_OK; return r; }
PGresult* PQexecPrepared(PGconn* c, const char* name, int n, const char* const* v, const int*, const int*, int)
{ auto it = c->prepared.find(name); if (it == c->prepared.end()) { auto* r = new pg_result; r->status = PGRES_FATAL_ERROR; c->error = "no such prepared statement"; return r; } return run(c, it->second, n, v); }
ExecStatusType PQresultStatus(const PGresult* r) { return r ? r->status : PGRES_FATAL_ERROR; }
void PQclear(PGresult* r) { delete r; }
int PQntuples(const PGresult* r) { return (int)r->rows.size(); }
int PQnfields(const PGresult* r) { return (int)r->names.size(); }
char* PQfname(const PGresult* r, int i) { return const_cast<char*>(r->names.at(i).c_str()); }
int PQfnumber(const PGresult* r, const char* n) { for (size_t i = 0; i < r->names.size(); ++i) if (r->names[i] == n) return (int)i; return -1; }
char* PQgetvalue(const PGresult* r, int i, int j) { return const_cast<char*>(r->rows.at(i).at(j).second.c_str()); }
int PQgetisnull(const PGresult* r, int i, int j) { return r->rows.at(i).at(j).first; }
int PQgetlength(const PGresult* r, int i, int j) { return (int)r->rows.at(i).at(j).second.size(); }
char* PQcmdTuples(PGresult*) { static char z[] = "0"; return z; }
int PQconsumeInput(PGconn*) { return 1; }
PGnotify* PQnotifies(PGconn*) { return nullptr; }
void PQfreemem(void* p) { std::free(p); }
int PQsocket(const PGconn*) { return -1; }
}
