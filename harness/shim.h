// Stand-in for the begin-concurrent / wal2 SQLite build Bedrock ships with: runs the same SQL on the system SQLite.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
// called with every SQL text about to be prepared; a non-zero return is the error code reported instead of running it
extern std::function<int(const std::string&)> shimFault;
extern std::vector<std::string>* shimTrace;
// stand-in for concurrent transactions: BEGIN CONCURRENT / COMMIT / ROLLBACK do nothing and every statement commits by itself
extern bool shimConcurrent;
void shimHandlers();
extern std::function<std::string()> shimDeathNote;
#define FAIL(...) do { printf("VIOLATED: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
