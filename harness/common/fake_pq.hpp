// A stand-in for libpq backed by an in-memory SQL engine, so that the database gate source and the whole command line run in process.
#pragma once
#include <string>
#include <vector>
namespace fakepq {
void reset();                              // an empty database (per process)
void sql(const std::string& statement);    // run directly, throws std::runtime_error
void refuse_connections(bool yes);
extern std::vector<std::string> log;       // statements the code under test ran
}
