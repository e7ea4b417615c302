#pragma once
#include "expr.h"
#include <vector>

enum class Sat { YES, NO, UNKNOWN };

struct SolverStats {
	u64 asked = 0;      // feasibility questions put to the solver layer
	u64 cacheHits = 0;  // answered by an earlier identical question or a cached model
	u64 queries = 0;    // discharged by z3
	u64 sat = 0, unsat = 0, unknown = 0;
	u64 fpAbstract = 0; // settled with floating point operations as uninterpreted functions
	u64 guessed = 0; // no answer from the solver, but an assignment the evaluator certifies
	double seconds = 0;
	double maxSeconds = 0;
};
extern SolverStats g_sstats;

// Is pc && extra satisfiable?  `cur` satisfies pc.  On YES `out` satisfies pc && extra.
Sat solveWith(const std::vector<E>& pc, E extra, const Model& cur, Model& out);
// e with the conditions of its ITEs that the path condition settles (syntactically or by order) replaced
bool orderSettles(const std::vector<E>& pc, E c, int& k);
E simplifyUnder(const std::vector<E>& pc, E e);
void solverSetTimeout(unsigned ms);
std::string z3Version();

// The sampled normal-form verdicts put to the solver: how many it confirms, cannot settle in time, refutes
void crossCheck(u64& confirmed, u64& open, u64& refuted);
