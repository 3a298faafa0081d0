// Symbolic runtime: doubles of the code under test are either ordinary IEEE
// doubles or NaN-boxed handles to exact polynomials over symbolic variables.
// A comparison of symbolic values is a branch point; paths are enumerated
// depth first by re-execution, with one incremental SMT solver stack.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace rt {
typedef mpq_class Q;

struct PathEnd { std::string why; };             // abandon the current path
struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

struct Poly {                                    // sorted by monomial id; id 0 = constant
    std::vector<std::pair<int, Q>> t;
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    Q cst() const { return (!t.empty() && t[0].first == 0) ? t[0].second : Q(0); }
};

struct Var { std::string name; bool isInt; bool hasLo, hasHi; Q lo, hi; };

double fromQ(const Q &q);                        // exact rational -> double or handle
double fromPoly(const Poly &p);
Poly toPoly(double d);                           // finite values only
bool isSym(double d);                            // handle (incl. non-representable constants)
bool symVarying(double d);                       // handle with a non-constant polynomial
Poly operator+(const Poly &a, const Poly &b);
Poly operator-(const Poly &a, const Poly &b);
Poly operator*(const Poly &a, const Poly &b);
Poly scale(const Poly &a, const Q &q);
std::string show(const Poly &p);

// z3 side
extern z3::context *ctx;
z3::expr realExpr(const Poly &p);
// boolean expr for p OP 0, OP in {"<","<=","=",">=",">","!="}
z3::expr rel(const Poly &p, const char *op);

// variables. Same name on re-execution = same variable.
double newInt(const std::string &name, long lo, long hi);
double newReal(const std::string &name, bool hasLo = false, Q lo = 0, bool hasHi = false, Q hi = 0);

// path interface
bool decide(const Poly &p, int mask);            // mask: 1 "<0", 2 "=0", 4 ">0"
int choose(int n, const char *what);             // environment nondeterminism
void assume(const std::function<z3::expr()> &e, const char *what); // may end the path
bool atFrontier();                               // not replaying a prefix

struct QueryResult { int r; /* 0 unsat, 1 sat, 2 unknown */ std::map<std::string, Q> model; };
QueryResult query(const z3::expr &e, unsigned timeout_ms = 20000);
std::map<std::string, Q> currentModel();         // a model of the path so far
bool hasModel();
Q evalPoly(const Poly &p, const std::map<std::string, Q> &m);

struct Stats {
    uint64_t paths = 0, complete = 0, killed = 0, infeasible_assume = 0, forks = 0, forced = 0, queries = 0,
             unknown = 0, sat = 0, unsat = 0, fpops = 0, choices = 0, prop_queries = 0;
    double solver_s = 0;
    bool exhausted = false;
    std::string stop;
};
extern Stats stats;
extern bool nonIntegral;          // a value was found not to be an integer on this path

struct Limits { uint64_t max_paths = 100000; double max_s = 60; int max_depth = 4000; };
// explore all paths of body
void explore(const std::function<void()> &body, const Limits &lim);
double now();

// heap bookkeeping of the code under test
namespace env {
extern size_t live_blocks();
extern uint64_t alloc_calls;
extern bool alloc_faults;        // explore failure of each single allocation
extern bool alloc_failed;
extern bool thread_fault;        // explore failure of pthread_create
extern int thread_mode;          // 0: run at create, 1: run at join
extern bool time_cut;            // explore expiry of the time limit at every clock reading
extern bool timed_out, thread_failed;
extern bool exit_called;
extern uint64_t printed;
extern unsigned char fill; extern bool track_races; extern int life; std::string sharedStatics(); extern std::string race; extern uint64_t entries, max_entries, clock_after, clock_free, tol_asserts;
void reset();                    // at path start; frees leftovers of the last path
void freeLeftovers();
extern uint64_t clock_calls, threads_created;
}

struct S {                       // arithmetic on (possibly symbolic) finite doubles
    double d;
    S(double x = 0) : d(x) {}
};
} // namespace rt

extern "C" {
double sym_fadd(double, double); double sym_fsub(double, double); double sym_fmul(double, double);
double sym_fdiv(double, double); double sym_fneg(double); double sym_fabs(double);
bool sym_fcmp(int pred, double, double);
}
