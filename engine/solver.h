#pragma once
#include "expr.h"
enum class Sat { Unsat, Sat, Unknown };
struct SolverStats {
    uint64_t queries = 0, cacheHits = 0, modelHits = 0, unsat = 0, sat = 0, unknown = 0;
    double time = 0, portfolioTime = 0, intTime = 0;
    uint64_t intQueries = 0;
    std::map<std::string, uint64_t> byBackend;  // obligations discharged by back end
};
extern SolverStats g_stats;
// Conjunction of cs satisfiable? On Sat fills model (if non-null) for the variables of cs.
Sat solverCheck(const std::vector<E>& cs, Model* model, unsigned timeoutMs);
// Portfolio of external solvers; `which` receives the name of the deciding back end.
Sat portfolioCheck(const std::vector<E>& cs, Model* model, unsigned timeoutSec, std::string& which);
// Integer reading of the constraints; Unsat or Unknown only.
Sat intCheck(const std::vector<E>& cs, unsigned timeoutMs);
double nowSec();
