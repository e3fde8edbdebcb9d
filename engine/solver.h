// Z3 back end: satisfiability of a set of 1-bit expressions, with independence slicing, a query cache, a time cap.
#pragma once
#include "expr.h"
#include <vector>
#include <string>

enum class Sat { Yes, No, Unknown };

struct SolverStats {
	uint64_t queries = 0;      // asked by the executor (after constant folding)
	uint64_t solved = 0;       // sent to z3
	uint64_t cache_hits = 0;
	uint64_t sat = 0, unsat = 0, unknown = 0;
	double z3_s = 0;
	double max_s = 0;
};

struct Solver {
	SolverStats st;
	unsigned timeout_ms = 60000;
	Solver( );
	~Solver( );
	// Is  constraints /\ cond  satisfiable?  On Yes, model receives values for the variables of the relevant
	// slice; every other variable keeps its value from `base` (which must satisfy `constraints`).
	Sat check( std::vector<E> const &constraints, E cond, Model const &base, Model *model );
	std::string reason;
private:
	struct Impl;
	Impl *p;
};
