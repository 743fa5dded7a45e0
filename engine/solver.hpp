// Deciding conjunctions of boolean expressions with z3.
#pragma once
#include "expr.hpp"
#include <array>
#include <functional>
#include <unordered_set>

enum Result { UNSAT, SAT, UNKNOWN };

struct SolverStats
{
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, lemmas = 0, resets = 0, coreHits = 0, modelReuse = 0;
    double seconds = 0;
};
extern SolverStats g_solver;

// A fact about a function of integers: for every argument in the region
// (a conjunction over the formals), its result is result.
struct Leaf { std::vector<E> region; E result; };
// Returns the leaf that contains the given arguments.
extern const Leaf* (*g_leafFor)(u32 fn, const u64* args);
// A function of one integer as a decision diagram over its 21 lowest bits,
// for arguments below 2^21: node n stands for terminal[n] when n is small,
// else for nodes[n - terminals]. Argument + value if delta is set.
struct FnTable
{
    bool ok = false, delta = false;
    u64 max = 0; // the highest result
    std::vector<u64> terminals;
    std::vector<std::array<u32, 3>> nodes; // bit, value when 0, value when 1
    u32 roots[22];                         // by number of bits
};
extern const FnTable* (*g_tableFor)(u32 fn);

void solverInit(unsigned timeoutMs, unsigned seed);
// Decides the conjunction. If it is satisfiable, the values of the variables
// in it are stored in model (which has a value for every variable already).
Result solve(const std::vector<E>& conj, std::vector<u64>& model);
