// Property harness: drives the public API of PSLP on a symbolic LP and decides
// the properties with the solver at the end of every path.
#include "rt.hpp"
#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/time.h>
#include <unistd.h>
using namespace rt;
using std::string; using std::vector;

// ------------------------------------------------------------------ the two builds of the code under test
struct Api {
    Settings *(*default_settings)(); void (*free_settings)(Settings *);
    void (*set_settings_true)(Settings *); void (*set_settings_false)(Settings *);
    Presolver *(*new_presolver)(const double *, const int *, const int *, size_t, size_t, size_t, const double *, const double *,
                                const double *, const double *, const double *, const Settings *);
    void (*free_presolver)(Presolver *); PresolveStatus (*run_presolver)(Presolver *);
    void (*postsolve)(Presolver *, const double *, const double *, const double *);
};
extern "C" {
#define NAT(r, n, a) r nat_##n a;
NAT(Settings *, default_settings, ()) NAT(void, free_settings, (Settings *)) NAT(void, set_settings_true, (Settings *))
NAT(void, set_settings_false, (Settings *))
NAT(Presolver *, new_presolver, (const double *, const int *, const int *, size_t, size_t, size_t, const double *, const double *,
                                 const double *, const double *, const double *, const Settings *))
NAT(void, free_presolver, (Presolver *)) NAT(PresolveStatus, run_presolver, (Presolver *))
NAT(void, postsolve, (Presolver *, const double *, const double *, const double *))
}
static Api symApi = {default_settings, free_settings, set_settings_true, set_settings_false, new_presolver, free_presolver, run_presolver, postsolve};
static Api natApi = {nat_default_settings, nat_free_settings, nat_set_settings_true, nat_set_settings_false, nat_new_presolver, nat_free_presolver, nat_run_presolver, nat_postsolve};
static Api *api = &symApi;

// ------------------------------------------------------------------ options
static string prop, specFile, outDir = ".", bindFile;
static bool replayMode = false, doValidate = true;
static double VT = 1e-3;            // a violation must exceed this
static Q AT = 0;                    // slack of the assumptions (replay only)
static Limits lim;
static int maxViol = 4;
static std::map<string, double> bindVals;
static string bindNote;
extern void (*g_crash)(const char *);
namespace rt { extern vector<int> bindChoices; extern bool bindMode; vector<int> pathChoices(); }

// ------------------------------------------------------------------ spec
struct Tok { enum { NUM, INT, REAL, REF } k = NUM; double v = 0; long lo = 0, hi = 0; string ref; double add = 0, mul = 1; };
struct Spec {
    string name, family, text; int m = 0, n = 0;
    vector<vector<std::pair<int, Tok>>> rows; vector<Tok> lhs, rhs, lb, ub, c;
    std::map<string, string> set; vector<string> expects; bool order = true; vector<string> assumes;
};
static Tok parseTok(const string &s) {
    Tok t;
    if (s[0] == 'I' || s[0] == 'R') {
        t.k = s[0] == 'I' ? Tok::INT : Tok::REAL;
        sscanf(s.c_str() + 1, ":%ld:%ld", &t.lo, &t.hi); return t;
    }
    if (s[0] == 'T') { double base, unit; t.k = Tok::INT; sscanf(s.c_str() + 1, ":%lf:%lf:%ld:%ld", &base, &unit, &t.lo, &t.hi); t.add = base; t.mul = unit; return t; } // base + unit * integer
    if (s[0] == '=') { // =[k*]name[+const]
        t.k = Tok::REF; string r = s.substr(1);
        auto st = r.find('*'); if (st != string::npos) { t.mul = atof(r.substr(0, st).c_str()); r = r.substr(st + 1); }
        auto pl = r.find_first_of("+", 1); if (pl != string::npos) { t.add = atof(r.substr(pl).c_str()); r = r.substr(0, pl); }
        t.ref = r; return t;
    }
    t.v = s == "inf" ? INFINITY : s == "-inf" ? -INFINITY : strtod(s.c_str(), nullptr);
    auto sl = s.find('/'); if (sl != string::npos) t.v = atof(s.substr(0, sl).c_str()) / atof(s.substr(sl + 1).c_str());
    return t;
}
static vector<Spec> readSpecs(std::istream &in) {
    vector<Spec> v; string line; Spec *s = nullptr;
    while (std::getline(in, line)) {
        std::istringstream ls(line); string k; if (!(ls >> k) || k[0] == '#') continue;
        if (k == "spec") { v.emplace_back(); s = &v.back(); ls >> s->name >> s->family >> s->m >> s->n; s->rows.resize(s->m); s->lhs.resize(s->m); s->rhs.resize(s->m); s->lb.resize(s->n); s->ub.resize(s->n); s->c.resize(s->n); }
        if (!s) throw EngineError("bad spec file");
        s->text += line + "\n";
        if (k == "row") { int i; string a, b, t; ls >> i >> a >> b; s->lhs[i] = parseTok(a); s->rhs[i] = parseTok(b);
            while (ls >> t) { auto p = t.find(':'); s->rows[i].push_back({atoi(t.substr(0, p).c_str()), parseTok(t.substr(p + 1))}); } }
        else if (k == "col") { int j; string a, b, c; ls >> j >> a >> b >> c; s->lb[j] = parseTok(a); s->ub[j] = parseTok(b); s->c[j] = parseTok(c); }
        else if (k == "set") { string a, b; ls >> a >> b; s->set[a] = b; }
        else if (k == "expect") { string r; std::getline(ls, r); s->expects.push_back(r.substr(r.find_first_not_of(' '))); }
        else if (k == "noorder") s->order = false;
    }
    return v;
}
static Spec *cur = nullptr;

// ------------------------------------------------------------------ symbolic inputs
static double freshVal(const string &name, bool isInt, bool hl, Q lo, bool hh, Q hi) {
    if (replayMode) { auto it = bindVals.find(name); return it == bindVals.end() ? 0.0 : it->second; }
    return isInt ? newInt(name, lo.get_num().get_si(), hi.get_num().get_si()) : newReal(name, hl, lo, hh, hi);
}
static std::map<string, double> named;
static double inst(const Tok &t, const string &name) {
    double d;
    switch (t.k) {
    case Tok::NUM: d = t.v; break;
    case Tok::INT: d = freshVal(name, true, true, Q(t.lo), true, Q(t.hi)); if (t.mul != 1 || t.add != 0) d = sym_fadd(sym_fmul(d, t.mul), t.add); break;
    case Tok::REAL: d = freshVal(name, false, true, Q(t.lo), true, Q(t.hi)); break;
    default: {
        auto it = named.find(t.ref); if (it == named.end()) throw EngineError("unknown reference " + t.ref);
        d = sym_fadd(sym_fmul(it->second, t.mul), t.add);
    }
    }
    named[name] = d; return d;
}
struct LP {
    size_t m = 0, n = 0; vector<double> Ax; vector<int> Ai, Ap; vector<double> lhs, rhs, lb, ub, c;
    size_t nnz() const { return Ax.size(); }
};
static bool fin(double d) { return isSym(d) || std::isfinite(d); }
static Q slackQ() { return AT; }
static z3::expr T() { return ctx->bool_val(true); }
static z3::expr Fz() { return ctx->bool_val(false); }
static Poly cpoly(const Q &q) { Poly p; if (q != 0) p.t.push_back({0, q}); return p; }
// assumption forms (relaxed in replay)
static z3::expr aLE(const Poly &p) { return rel(p - cpoly(slackQ()), "<="); }
static z3::expr aGE(const Poly &p) { return rel(p + cpoly(slackQ()), ">="); }
static z3::expr aEQ(const Poly &p) { if (AT == 0) return rel(p, "="); return aLE(p) && aGE(p); }
static z3::expr conj(const z3::expr_vector &v) { return v.empty() ? T() : z3::mk_and(v); }
static z3::expr disj(const z3::expr_vector &v) { return v.empty() ? Fz() : z3::mk_or(v); }
// violation forms
static z3::expr vGT(const Poly &p) { return rel(p - cpoly(Q(VT)), ">"); } // p > VT
static z3::expr vNE(const Poly &p) { return vGT(p) || vGT(scale(p, Q(-1))); }

static LP buildLP() {
    LP lp; Spec &s = *cur; lp.m = s.m; lp.n = s.n; named.clear();
    lp.Ap.push_back(0);
    for (int i = 0; i < s.m; i++) {
        string I = std::to_string(i);
        lp.lhs.push_back(inst(s.lhs[i], "lhs" + I)); lp.rhs.push_back(inst(s.rhs[i], "rhs" + I));
        for (auto &e : s.rows[i]) { lp.Ai.push_back(e.first); lp.Ax.push_back(inst(e.second, "a" + I + "_" + std::to_string(e.first))); }
        lp.Ap.push_back((int)lp.Ax.size());
    }
    for (int j = 0; j < s.n; j++) {
        string J = std::to_string(j);
        lp.lb.push_back(inst(s.lb[j], "lb" + J)); lp.ub.push_back(inst(s.ub[j], "ub" + J)); lp.c.push_back(inst(s.c[j], "c" + J));
    }
    if (!replayMode) {
        z3::expr_vector v(*ctx);
        if (s.order) {
            for (int i = 0; i < s.m; i++) if (fin(lp.lhs[i]) && fin(lp.rhs[i]) && (isSym(lp.lhs[i]) || isSym(lp.rhs[i]))) v.push_back(rel(toPoly(lp.lhs[i]) - toPoly(lp.rhs[i]), "<="));
            for (int j = 0; j < s.n; j++) if (fin(lp.lb[j]) && fin(lp.ub[j]) && (isSym(lp.lb[j]) || isSym(lp.ub[j]))) v.push_back(rel(toPoly(lp.lb[j]) - toPoly(lp.ub[j]), "<="));
        }
        // a stored coefficient is not zero
        for (double a : lp.Ax) if (isSym(a)) v.push_back(rel(toPoly(a), "!="));
        if (!v.empty()) assume([&] { return conj(v); }, "order");
    }
    return lp;
}
static void applySettings(Settings *st, const std::map<string, string> &set) {
    for (auto &kv : set) {
        const string &k = kv.first; double v = kv.second == "inf" ? INFINITY : atof(kv.second.c_str());
        if (k == "all") { if (v) api->set_settings_true(st); else api->set_settings_false(st); st->verbose = false; }
    }
    for (auto &kv : set) {
        const string &k = kv.first; double v = kv.second == "inf" ? INFINITY : atof(kv.second.c_str());
        if (k == "ston_cols") st->ston_cols = v; else if (k == "dton_eq") st->dton_eq = v; else if (k == "parallel_rows") st->parallel_rows = v;
        else if (k == "parallel_cols") st->parallel_cols = v; else if (k == "primal_propagation") st->primal_propagation = v;
        else if (k == "finite_bound_tightening") st->finite_bound_tightening = v; else if (k == "dual_fix") st->dual_fix = v;
        else if (k == "relax_bounds") st->relax_bounds = v; else if (k == "max_shift") st->max_shift = (int)v;
        else if (k == "max_time") st->max_time = v; else if (k == "verbose") st->verbose = v;
    }
}
static Settings *makeSettings() {
    Settings *st = api->default_settings(); if (!st) return nullptr;
    st->verbose = false; applySettings(st, cur->set); return st;
}
static Presolver *create(const LP &lp, const Settings *st) {
    return api->new_presolver(lp.Ax.data(), lp.Ai.data(), lp.Ap.data(), lp.m, lp.n, lp.nnz(), lp.lhs.data(), lp.rhs.data(), lp.lb.data(), lp.ub.data(), lp.c.data(), st);
}
static LP reducedLP(const Presolver *P) {
    LP r; const PresolvedProblem *q = P->reduced_prob; r.m = q->m; r.n = q->n;
    r.Ax.assign(q->Ax, q->Ax + q->nnz); r.Ai.assign(q->Ai, q->Ai + q->nnz); r.Ap.assign(q->Ap, q->Ap + q->m + 1);
    r.lhs.assign(q->lhs, q->lhs + q->m); r.rhs.assign(q->rhs, q->rhs + q->m);
    r.lb.assign(q->lbs, q->lbs + q->n); r.ub.assign(q->ubs, q->ubs + q->n); r.c.assign(q->c, q->c + q->n);
    return r;
}

// ------------------------------------------------------------------ reporting
struct Violation { string desc, file; };
static vector<Violation> violations;
static std::map<string, uint64_t> cover;
static uint64_t inconclusive = 0, validated = 0, valMismatch = 0;
static vector<string> samples, mismatches;
static std::map<string, int> violPerDesc;
extern uint64_t g_fnhits;

static string replayExtra;
static void writeReplay(const string &file, const string &desc, const std::map<string, Q> &m) {
    std::ofstream o(file);
    o << "# replay: property " << prop << "\n# " << desc << "\nprop " << prop << "\ndesc " << desc << "\n";
    o << "choices"; for (int c : pathChoices()) o << " " << c; o << "\n";
    for (auto &kv : m) { char b[64]; snprintf(b, sizeof b, "%.17g", kv.second.get_d()); o << "bind " << kv.first << " " << b << "\n"; }
    o << replayExtra << "specfile\n" << cur->text;
}
static void report(const string &desc, const std::map<string, Q> &m) {
    if (replayMode) { violations.push_back({desc, ""}); return; }
    string key = desc.substr(0, desc.find(" ["));
    if (violPerDesc[key]++ >= 2) return;
    string f = outDir + "/" + prop + "-" + cur->name + "-" + std::to_string(violations.size()) + ".replay";
    writeReplay(f, desc, m);
    violations.push_back({desc, f});
}
// is there a value on this path for which e holds?  then the property is broken
static bool forbid(const z3::expr &e0, const string &desc, unsigned tmo = 20000) {
    z3::expr e = e0.simplify();
    if (e.is_false()) { cover["forbid_trivial"]++; return false; }
    if (replayMode) { if (e.is_true()) { report(desc, {}); return true; } if (!e.is_false()) { fprintf(stderr, "replay: formula not constant\n"); } return false; }
    QueryResult q = query(e, tmo);
    if (q.r == 0) return false;
    if (q.r == 2) { inconclusive++; return false; }
    report(desc, q.model); return true;
}
static void fail(const string &desc) { report(desc, replayMode ? std::map<string, Q>() : currentModel()); }
static bool inTarget = false;
static void crashHook(const char *why) { fail(string("crash: ") + why); }

static void emitJson(FILE *f);
static string jsonPath;
static void onSignal(int sig) {
    static volatile int once = 0; if (once++) _exit(99);
    string why = sig == SIGALRM || sig == SIGVTALRM ? "no termination within the path time limit" : sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic trap" : sig == SIGABRT ? "abort" : sig == SIGBUS ? "bus error" : "signal";
    if (replayMode) { printf("REPLAY VIOLATED crash: %s\n", why.c_str()); fflush(stdout); _exit(1); }
    stats.stop = "crash"; fail("crash: " + why);
    FILE *o = jsonPath.empty() ? stdout : fopen(jsonPath.c_str(), "a"); emitJson(o); fflush(o); _exit(0);
}
static string asanMsg;
extern "C" void __asan_on_error() {
    static int once = 0; if (once++ || getenv("ASAN_REPORT")) return;
    if (replayMode) { printf("REPLAY VIOLATED crash: memory error (AddressSanitizer)\n"); fflush(stdout); _exit(1); }
    stats.stop = "crash"; fail("crash: memory error (AddressSanitizer)");
    FILE *o = jsonPath.empty() ? stdout : fopen(jsonPath.c_str(), "a"); emitJson(o); fflush(o); _exit(0);
}
static double pathCpuLimit = 60;
static void armPathTimer(double s) {
    struct itimerval it{}; it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6); setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ------------------------------------------------------------------ formulas over LPs
typedef vector<Poly> PV;
static PV rowActs(const LP &lp, const PV &x) {
    PV r(lp.m);
    for (size_t i = 0; i < lp.m; i++) for (int k = lp.Ap[i]; k < lp.Ap[i + 1]; k++) r[i] = r[i] + toPoly(lp.Ax[k]) * x[lp.Ai[k]];
    return r;
}
static bool badNum(double d) { return !isSym(d) && std::isnan(d); }
static z3::expr feasF(const LP &lp, const PV &x) {
    z3::expr_vector v(*ctx); PV a = rowActs(lp, x);
    for (size_t i = 0; i < lp.m; i++) {
        if (fin(lp.lhs[i])) v.push_back(aGE(a[i] - toPoly(lp.lhs[i]))); else if (lp.lhs[i] > 0 || badNum(lp.lhs[i])) v.push_back(Fz());
        if (fin(lp.rhs[i])) v.push_back(aLE(a[i] - toPoly(lp.rhs[i]))); else if (lp.rhs[i] < 0 || badNum(lp.rhs[i])) v.push_back(Fz());
    }
    for (size_t j = 0; j < lp.n; j++) {
        if (fin(lp.lb[j])) v.push_back(aGE(x[j] - toPoly(lp.lb[j]))); else if (lp.lb[j] > 0) v.push_back(Fz());
        if (fin(lp.ub[j])) v.push_back(aLE(x[j] - toPoly(lp.ub[j]))); else if (lp.ub[j] < 0) v.push_back(Fz());
    }
    return conj(v);
}
static z3::expr robustFeasF(const LP &lp, const PV &x) { // feasible, with slack at every inequality
    z3::expr_vector v(*ctx); PV a = rowActs(lp, x); Poly s = cpoly(replayMode ? Q(1, 1100) : Q(1, 1000)); v.push_back(feasF(lp, x));
    auto eq = [](double l, double u) { return memcmp(&l, &u, 8) == 0 || (!isSym(l) && !isSym(u) && l == u) || (isSym(l) && isSym(u) && (toPoly(l) - toPoly(u)).t.empty()); };
    for (size_t i = 0; i < lp.m; i++) if (!eq(lp.lhs[i], lp.rhs[i])) { if (fin(lp.lhs[i])) v.push_back(rel(a[i] - toPoly(lp.lhs[i]) - s, ">=")); if (fin(lp.rhs[i])) v.push_back(rel(a[i] - toPoly(lp.rhs[i]) + s, "<=")); }
    for (size_t j = 0; j < lp.n; j++) if (!eq(lp.lb[j], lp.ub[j])) { if (fin(lp.lb[j])) v.push_back(rel(x[j] - toPoly(lp.lb[j]) - s, ">=")); if (fin(lp.ub[j])) v.push_back(rel(x[j] - toPoly(lp.ub[j]) + s, "<=")); }
    return conj(v);
}
static z3::expr infeasPointF(const LP &lp, const PV &x) { // x violates lp by more than VT
    z3::expr_vector v(*ctx); PV a = rowActs(lp, x);
    for (size_t i = 0; i < lp.m; i++) {
        if (fin(lp.lhs[i])) v.push_back(vGT(toPoly(lp.lhs[i]) - a[i]));
        if (fin(lp.rhs[i])) v.push_back(vGT(a[i] - toPoly(lp.rhs[i])));
    }
    for (size_t j = 0; j < lp.n; j++) {
        if (fin(lp.lb[j])) v.push_back(vGT(toPoly(lp.lb[j]) - x[j]));
        if (fin(lp.ub[j])) v.push_back(vGT(x[j] - toPoly(lp.ub[j])));
    }
    return disj(v);
}
static PV redCost(const LP &lp, const PV &y) { // c - A'y
    PV z(lp.n); for (size_t j = 0; j < lp.n; j++) z[j] = toPoly(lp.c[j]);
    for (size_t i = 0; i < lp.m; i++) for (int k = lp.Ap[i]; k < lp.Ap[i + 1]; k++) z[lp.Ai[k]] = z[lp.Ai[k]] - toPoly(lp.Ax[k]) * y[i];
    return z;
}
static z3::expr dualSignsF(const LP &lp, const PV &y, const PV &z) { // assumption
    z3::expr_vector v(*ctx);
    for (size_t i = 0; i < lp.m; i++) { if (!fin(lp.lhs[i])) v.push_back(aLE(y[i])); if (!fin(lp.rhs[i])) v.push_back(aGE(y[i])); }
    for (size_t j = 0; j < lp.n; j++) { if (!fin(lp.lb[j])) v.push_back(aLE(z[j])); if (!fin(lp.ub[j])) v.push_back(aGE(z[j])); }
    return conj(v);
}
static z3::expr complF(const LP &lp, const PV &x, const PV &y, const PV &z) { // assumption
    z3::expr_vector v(*ctx); PV a = rowActs(lp, x);
    for (size_t i = 0; i < lp.m; i++) {
        if (fin(lp.lhs[i])) v.push_back(aLE(y[i]) || aLE(a[i] - toPoly(lp.lhs[i])));
        if (fin(lp.rhs[i])) v.push_back(aGE(y[i]) || aGE(a[i] - toPoly(lp.rhs[i])));
    }
    for (size_t j = 0; j < lp.n; j++) {
        if (fin(lp.lb[j])) v.push_back(aLE(z[j]) || aLE(x[j] - toPoly(lp.lb[j])));
        if (fin(lp.ub[j])) v.push_back(aGE(z[j]) || aGE(x[j] - toPoly(lp.ub[j])));
    }
    return conj(v);
}
static z3::expr stationF(const LP &lp, const PV &y, const PV &z) {
    z3::expr_vector v(*ctx); PV r = redCost(lp, y);
    for (size_t j = 0; j < lp.n; j++) v.push_back(aEQ(z[j] - r[j]));
    return conj(v);
}
static PV polys(const vector<double> &v) { PV p; for (double d : v) p.push_back(toPoly(d)); return p; }
static Poly dot(const vector<double> &c, const PV &x) { Poly s; for (size_t j = 0; j < x.size(); j++) s = s + toPoly(c[j]) * x[j]; return s; }
static vector<double> freshVec(const char *base, size_t n) {
    vector<double> v; for (size_t j = 0; j < n; j++) v.push_back(freshVal(string(base) + std::to_string(j), false, false, 0, false, 0)); return v;
}
// z as a function of y where possible: substitute z = c - A'y directly
static vector<double> fromPolys(const PV &p) { vector<double> v; for (auto &q : p) v.push_back(fromPoly(q)); return v; }

// Fourier-Motzkin: constraints p <= 0, eliminate variables given as monomials of names
struct FM {
    bool ok = true; vector<Poly> cons;
    // linear coefficient of the variable whose poly is v (single monomial, coefficient 1)
    static Q coef(const Poly &p, int mono) { for (auto &t : p.t) if (t.first == mono) return t.second; return 0; }
    void elim(int mono) {
        vector<Poly> up, lo, rest;
        for (auto &p : cons) { Q c = coef(p, mono); if (c > 0) up.push_back(scale(p, 1 / c)); else if (c < 0) lo.push_back(scale(p, -1 / c)); else rest.push_back(p); }
        for (auto &u : up) for (auto &l : lo) { Poly s = u + l; if (s.isConst() && s.cst() <= 0) continue; rest.push_back(s); }
        // drop duplicates
        std::map<string, bool> seen; cons.clear();
        for (auto &p : rest) { string k = show(p); if (!seen[k]) { seen[k] = true; cons.push_back(p); } }
        if (cons.size() > 4000) ok = false;
    }
};

// ------------------------------------------------------------------ common path prefix
struct Ctx { LP lp; Settings *st = nullptr; Presolver *P = nullptr; PresolveStatus status = 0; };
static void noteStatus(PresolveStatus s) {
    cover[s == UNCHANGED ? "status_unchanged" : s == REDUCED ? "status_reduced" : s == INFEASIBLE ? "status_infeasible" : s == UNBNDORINFEAS ? "status_unbndorinfeas" : "status_other"]++;
}
static Ctx *lastCtx = nullptr;
static bool startPath(Ctx &c, bool check_inputs = false) {
    lastCtx = &c;
    c.lp = buildLP(); c.st = makeSettings(); c.P = create(c.lp, c.st);
    if (!c.P) { fail("new_presolver returned NULL without an allocation failure"); return false; }
    c.status = api->run_presolver(c.P); noteStatus(c.status);
    return true;
}
static void endPath(Ctx &c) { api->free_presolver(c.P); api->free_settings(c.st); c.P = nullptr; }
static bool solved(const Ctx &c) { return c.status == UNCHANGED || c.status == REDUCED; }

// compare the symbolic run with the native build on a model of the path
static bool near(double a, double b) { if (a == b) return true; if (std::isnan(a) && std::isnan(b)) return true; return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(a)); }
static vector<double> evalVec(const vector<double> &v, const std::map<string, Q> &m) {
    vector<double> r; for (double d : v) r.push_back(isSym(d) ? evalPoly(toPoly(d), m).get_d() : d); return r;
}
static void validate(Ctx &c, const vector<double> *xr, const vector<double> *yr, const vector<double> *zr) {
    if (replayMode || !doValidate || api != &symApi) return;
    auto m = currentModel(); if (!hasModel()) return;
    LP q = c.lp; q.Ax = evalVec(q.Ax, m); q.lhs = evalVec(q.lhs, m); q.rhs = evalVec(q.rhs, m); q.lb = evalVec(q.lb, m); q.ub = evalVec(q.ub, m); q.c = evalVec(q.c, m);
    bool tc = env::time_cut, af = env::alloc_faults; env::time_cut = false; env::alloc_faults = false;
    Api *keep = api; api = &natApi;
    Settings *st = makeSettings();
    Presolver *P = create(q, st); string bad; 
    PresolveStatus s = api->run_presolver(P);
    if (s != c.status) bad = "status " + std::to_string(s) + " vs " + std::to_string(c.status);
    else if (solved(c)) {
        LP a = reducedLP(P), b = reducedLP(c.P);
        b.Ax = evalVec(b.Ax, m); b.lhs = evalVec(b.lhs, m); b.rhs = evalVec(b.rhs, m); b.lb = evalVec(b.lb, m); b.ub = evalVec(b.ub, m); b.c = evalVec(b.c, m);
        if (a.m != b.m || a.n != b.n || a.Ai != b.Ai || a.Ap != b.Ap) bad = "reduced structure";
        else {
            auto cmp = [&](const vector<double> &u, const vector<double> &v, const char *w) { for (size_t i = 0; i < u.size(); i++) if (!near(u[i], v[i])) bad = string("reduced ") + w; };
            cmp(a.Ax, b.Ax, "Ax"); cmp(a.lhs, b.lhs, "lhs"); cmp(a.rhs, b.rhs, "rhs"); cmp(a.lb, b.lb, "lb"); cmp(a.ub, b.ub, "ub"); cmp(a.c, b.c, "c");
            double off = c.P->reduced_prob->obj_offset; if (isSym(off)) off = evalPoly(toPoly(off), m).get_d();
            if (!near(off, P->reduced_prob->obj_offset)) bad = "offset";
            if (bad.empty() && xr && yr && zr) {
                vector<double> x = evalVec(*xr, m), y = evalVec(*yr, m), z = evalVec(*zr, m);
                x.push_back(0); y.push_back(0); z.push_back(0);
                api->postsolve(P, x.data(), y.data(), z.data());
                Solution *S0 = c.P->sol, *S1 = P->sol;
                for (size_t j = 0; j < S1->dim_x; j++) {
                    double u = isSym(S0->x[j]) ? evalPoly(toPoly(S0->x[j]), m).get_d() : S0->x[j]; if (!near(u, S1->x[j])) bad = "postsolved x";
                    u = isSym(S0->z[j]) ? evalPoly(toPoly(S0->z[j]), m).get_d() : S0->z[j]; if (!near(u, S1->z[j])) bad = "postsolved z";
                }
                for (size_t i = 0; i < S1->dim_y; i++) { double u = isSym(S0->y[i]) ? evalPoly(toPoly(S0->y[i]), m).get_d() : S0->y[i]; if (!near(u, S1->y[i])) bad = "postsolved y"; }
            }
        }
    }
    api->free_presolver(P); api->free_settings(st); api = keep; env::time_cut = tc; env::alloc_faults = af;
    if (bad.empty()) validated++;
    else { valMismatch++; if (mismatches.size() < 3) { string d = bad + ":"; for (auto &kv : m) d += " " + kv.first + "=" + kv.second.get_str(); mismatches.push_back(d); } }
    if (samples.size() < 2) { string d = cur->name + " status=" + std::to_string(c.status) + ":"; for (auto &kv : m) d += " " + kv.first + "=" + kv.second.get_str(); samples.push_back(d); }
}

// ------------------------------------------------------------------ properties
static double *dataOr(vector<double> &v) { static double dummy[1] = {0}; return v.empty() ? dummy : v.data(); }

static bool solFinite(Ctx &c, bool x, bool yz) {
    Solution *s = c.P->sol; bool ok = true;
    if (x) for (size_t j = 0; j < s->dim_x; j++) if (!fin(s->x[j])) { fail("postsolved x[" + std::to_string(j) + "] is not a finite number"); ok = false; }
    if (yz) {
        for (size_t j = 0; j < s->dim_x; j++) if (!fin(s->z[j])) { fail("postsolved z[" + std::to_string(j) + "] is not a finite number"); ok = false; }
        for (size_t i = 0; i < s->dim_y; i++) if (!fin(s->y[i])) { fail("postsolved y[" + std::to_string(i) + "] is not a finite number"); ok = false; }
    }
    return ok;
}
static PV solX(Ctx &c) { return polys(vector<double>(c.P->sol->x, c.P->sol->x + c.P->sol->dim_x)); }
static PV solY(Ctx &c) { return polys(vector<double>(c.P->sol->y, c.P->sol->y + c.P->sol->dim_y)); }
static PV solZ(Ctx &c) { return polys(vector<double>(c.P->sol->z, c.P->sol->z + c.P->sol->dim_x)); }

struct Red { LP lp; vector<double> x, y, z; PV xp, yp, zp; };
// a symbolic solution of the reduced problem.  level 1: x feasible; 2: KKT triple
static Red redSolution(Ctx &c, int level) {
    Red r; r.lp = reducedLP(c.P); r.x = freshVec("xr", r.lp.n); r.xp = polys(r.x);
    if (level >= 2) {
        r.y = freshVec("yr", r.lp.m); r.yp = polys(r.y);
        if (replayMode) { r.z = freshVec("zr", r.lp.n); r.zp = polys(r.z); }
        else { r.zp = redCost(r.lp, r.yp); r.z = fromPolys(r.zp); }
    } else { r.y.assign(r.lp.m, 0.0); r.z.assign(r.lp.n, 0.0); r.yp = polys(r.y); r.zp = polys(r.z); }
    auto f = [&] {
        z3::expr e = feasF(r.lp, r.xp);
        if (level >= 2) e = e && dualSignsF(r.lp, r.yp, r.zp) && complF(r.lp, r.xp, r.yp, r.zp);
        return e;
    };
    if (replayMode) {
        // z follows from y in the symbolic run
        if (level >= 2) { r.zp = redCost(r.lp, r.yp); r.z.clear(); for (auto &p : r.zp) r.z.push_back(p.cst().get_d()); r.zp = polys(r.z); }
        z3::expr e = f().simplify(); if (!e.is_true()) throw PathEnd{"replay: the witness is not a solution of the reduced problem"};
    } else assume(f, "reduced solution");
    return r;
}
static void runPost(Ctx &c, Red &r) {
    vector<double> x = r.x, y = r.y, z = r.z; x.push_back(0); y.push_back(0); z.push_back(0);
    api->postsolve(c.P, x.data(), y.data(), z.data());
}
static void bodyInfeas() {
    Ctx c; if (!startPath(c)) return;
    validate(c, nullptr, nullptr, nullptr);
    if (c.status == INFEASIBLE) {
        // once a value was tested for being an integer, the code may have moved a derived
        // bound by its tolerance: the witness then keeps a distance to every inequality
        // (likewise if the data differ by tolerances only: the region may be thinner than they are)
        bool robust = replayMode ? bindVals.count("mode!robust") != 0 : nonIntegral || cur->family.compare(0, 3, "tol") == 0;
        PV w = polys(freshVec("w", c.lp.n)); cover[robust ? "infeas_robust" : "infeas_exact"]++;
        if (robust) replayExtra = "bind mode!robust 1\n";
        forbid(robust ? robustFeasF(c.lp, w) : feasF(c.lp, w), "INFEASIBLE reported although a feasible point exists"); replayExtra.clear();
    }
    endPath(c);
}
static void bodyUnbnd() {
    Ctx c; if (!startPath(c)) return;
    validate(c, nullptr, nullptr, nullptr);
    if (c.status == UNBNDORINFEAS) {
        PV w = polys(freshVec("w", c.lp.n)), y = polys(freshVec("wy", c.lp.m));
        forbid(feasF(c.lp, w) && dualSignsF(c.lp, y, redCost(c.lp, y)), "UNBNDORINFEAS reported although the problem has an optimal solution");
    } else if (!solved(c) && c.status != INFEASIBLE) fail("run_presolver returned an undocumented status");
    endPath(c);
}
static void bodyPrimal() {
    Ctx c; if (!startPath(c)) return;
    if (solved(c)) {
        Red r = redSolution(c, 1); runPost(c, r); cover["postsolved"]++;
        if (solFinite(c, true, false)) { PV x = solX(c); forbid(infeasPointF(c.lp, x), "postsolved point violates the original constraints"); }
        validate(c, &r.x, &r.y, &r.z);
    } else validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
static void bodyObj() {
    Ctx c; if (!startPath(c)) return;
    if (solved(c)) {
        Red r = redSolution(c, 1); runPost(c, r); cover["postsolved"]++;
        double off = c.P->reduced_prob->obj_offset;
        if (!fin(off)) fail("objective offset is not a finite number");
        else if (solFinite(c, true, false)) {
            PV x = solX(c);
            Poly d = dot(c.lp.c, x) - dot(r.lp.c, r.xp) - toPoly(off);
            forbid(vNE(d), "objective of the postsolved point differs from reduced objective plus offset");
        }
        validate(c, &r.x, &r.y, &r.z);
    } else validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
static void bodyKkt(bool signs) {
    Ctx c; if (!startPath(c)) return;
    if (solved(c)) {
        Red r = redSolution(c, 2); runPost(c, r); cover["postsolved"]++;
        if (solFinite(c, true, true)) {
            PV x = solX(c), y = solY(c), z = solZ(c);
            if (!signs) {
                PV rc = redCost(c.lp, y); z3::expr_vector v(*ctx);
                for (size_t j = 0; j < c.lp.n; j++) v.push_back(vNE(z[j] - rc[j]));
                forbid(disj(v), "postsolved duals are not stationary: z differs from c - A'y");
            } else {
                z3::expr_vector v(*ctx), w(*ctx), s(*ctx), t(*ctx); PV a = rowActs(c.lp, x);
                for (size_t i = 0; i < c.lp.m; i++) {
                    if (fin(c.lp.lhs[i])) v.push_back(vGT(y[i]) && vGT(a[i] - toPoly(c.lp.lhs[i]))); else s.push_back(vGT(y[i]));
                    if (fin(c.lp.rhs[i])) v.push_back(vGT(scale(y[i], Q(-1))) && vGT(toPoly(c.lp.rhs[i]) - a[i])); else s.push_back(vGT(scale(y[i], Q(-1))));
                }
                for (size_t j = 0; j < c.lp.n; j++) {
                    if (fin(c.lp.lb[j])) w.push_back(vGT(z[j]) && vGT(x[j] - toPoly(c.lp.lb[j]))); else t.push_back(vGT(z[j]));
                    if (fin(c.lp.ub[j])) w.push_back(vGT(scale(z[j], Q(-1))) && vGT(toPoly(c.lp.ub[j]) - x[j])); else t.push_back(vGT(scale(z[j], Q(-1))));
                }
                forbid(disj(s), "a row dual has the wrong sign for its missing side");
                forbid(disj(t), "a reduced cost has the wrong sign for its missing bound");
                forbid(disj(v), "a row dual is nonzero although its side is not attained");
                forbid(disj(w), "a reduced cost is nonzero although its bound is not attained");
            }
        }
        validate(c, &r.x, &r.y, &r.z);
    } else validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
static void bodyOpt() {
    Ctx c; if (!startPath(c)) return;
    if (solved(c)) {
        Red r = redSolution(c, 2); runPost(c, r); cover["postsolved"]++;
        if (solFinite(c, true, false)) {
            PV x = solX(c), w = polys(freshVec("w", c.lp.n));
            forbid(feasF(c.lp, w) && vGT(dot(c.lp.c, x) - dot(c.lp.c, w)), "an original point is better than the postsolved reduced optimum");
        }
        validate(c, &r.x, &r.y, &r.z);
    } else validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
static int monoOf(const Poly &p) { return p.t[0].first; }
static void bodyLost() {
    Ctx c; if (!startPath(c)) return;
    validate(c, nullptr, nullptr, nullptr);
    if (solved(c) && !replayMode) {
        LP r = reducedLP(c.P);
        PV w = polys(freshVec("w", c.lp.n)); z3::expr F = feasF(c.lp, w);
        {   // original feasible => reduced feasible
            PV x = polys(freshVec("xr", r.n)); PV a = rowActs(r, x); FM fm;
            for (size_t i = 0; i < r.m; i++) { if (fin(r.lhs[i])) fm.cons.push_back(toPoly(r.lhs[i]) - a[i]); if (fin(r.rhs[i])) fm.cons.push_back(a[i] - toPoly(r.rhs[i])); }
            for (size_t j = 0; j < r.n; j++) { if (fin(r.lb[j])) fm.cons.push_back(toPoly(r.lb[j]) - x[j]); if (fin(r.ub[j])) fm.cons.push_back(x[j] - toPoly(r.ub[j])); }
            for (size_t j = 0; j < r.n && fm.ok; j++) fm.elim(monoOf(x[j]));
            if (!fm.ok) { inconclusive++; cover["fm_overflow"]++; }
            else { z3::expr_vector v(*ctx); for (auto &p : fm.cons) v.push_back(vGT(p)); forbid(F && disj(v), "the reduced problem is infeasible although the original is feasible"); }
        }
        {   // original has an optimum => reduced is dual feasible
            PV wy = polys(freshVec("wy", c.lp.m)); z3::expr D = dualSignsF(c.lp, wy, redCost(c.lp, wy));
            PV y = polys(freshVec("yr", r.m)); PV z = redCost(r, y); FM fm;
            for (size_t i = 0; i < r.m; i++) { if (!fin(r.lhs[i])) fm.cons.push_back(y[i]); if (!fin(r.rhs[i])) fm.cons.push_back(scale(y[i], Q(-1))); }
            for (size_t j = 0; j < r.n; j++) { if (!fin(r.lb[j])) fm.cons.push_back(z[j]); if (!fin(r.ub[j])) fm.cons.push_back(scale(z[j], Q(-1))); }
            for (size_t i = 0; i < r.m && fm.ok; i++) fm.elim(monoOf(y[i]));
            if (!fm.ok) { inconclusive++; cover["fm_overflow"]++; }
            else { z3::expr_vector v(*ctx); for (auto &p : fm.cons) v.push_back(vGT(p)); forbid(F && D && disj(v), "the reduced problem is unbounded although the original has an optimal solution"); }
        }
    }
    if (solved(c) && replayMode) {
        // exact check of the concrete problems
        LP r = reducedLP(c.P); z3::solver s(*ctx);
        vector<double> w = freshVec("w", c.lp.n), wy = freshVec("wy", c.lp.m); PV wp = polys(w), wyp = polys(wy);
        if (!feasF(c.lp, wp).simplify().is_true()) throw PathEnd{"replay: the witness is not feasible"};
        bool df = dualSignsF(c.lp, wyp, redCost(c.lp, wyp)).simplify().is_true();
        PV x; for (size_t j = 0; j < r.n; j++) x.push_back(toPoly(newReal("rx" + std::to_string(j))));
        Q keep = AT; AT = Q(VT) / 2; 
        { s.push(); s.add(feasF(r, x)); if (s.check() == z3::unsat) report("the reduced problem is infeasible although the original is feasible", {}); s.pop(); }
        PV y; for (size_t i = 0; i < r.m; i++) y.push_back(toPoly(newReal("ry" + std::to_string(i))));
        if (df) { s.push(); s.add(dualSignsF(r, y, redCost(r, y))); if (s.check() == z3::unsat) report("the reduced problem is unbounded although the original has an optimal solution", {}); s.pop(); }
        AT = keep;
    }
    endPath(c);
}
#include "props2.inc"

// ------------------------------------------------------------------ main
static string esc(const string &s) { string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o; }
namespace rt { extern std::set<string> fnHit; }
static double specT0 = 0;
static void emitJson(FILE *f) {
    fprintf(f, "{\"spec\":\"%s\",\"family\":\"%s\",\"prop\":\"%s\",\"paths\":%" PRIu64 ",\"complete\":%" PRIu64 ",\"killed\":%" PRIu64 ",\"vacuous\":%" PRIu64 ",\"forks\":%" PRIu64 ",\"forced\":%" PRIu64 ",\"choices\":%" PRIu64 ",\"queries\":%" PRIu64 ",\"prop_queries\":%" PRIu64 ",\"sat\":%" PRIu64 ",\"unsat\":%" PRIu64 ",\"unknown\":%" PRIu64 ",\"inconclusive\":%" PRIu64 ",\"solver_s\":%.3f,\"wall_s\":%.3f,\"exhausted\":%s,\"stop\":\"%s\",\"fpops\":%" PRIu64 ",\"validated\":%" PRIu64 ",\"mismatch\":%" PRIu64,
            cur->name.c_str(), cur->family.c_str(), prop.c_str(), stats.paths, stats.complete, stats.killed, stats.infeasible_assume, stats.forks, stats.forced, stats.choices, stats.queries, stats.prop_queries, stats.sat, stats.unsat, stats.unknown, inconclusive, stats.solver_s, now() - specT0, stats.exhausted ? "true" : "false", esc(stats.stop).c_str(), stats.fpops, validated, valMismatch);
    fprintf(f, ",\"cover\":{"); bool first = true; for (auto &k : cover) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", esc(k.first).c_str(), k.second); first = false; }
    fprintf(f, "},\"functions\":["); first = true; for (auto &k : fnHit) { fprintf(f, "%s\"%s\"", first ? "" : ",", k.c_str()); first = false; }
    fprintf(f, "],\"samples\":["); first = true; for (auto &k : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(k).c_str()); first = false; }
    fprintf(f, "],\"mismatches\":["); first = true; for (auto &k : mismatches) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(k).c_str()); first = false; }
    fprintf(f, "],\"violations\":["); first = true; for (auto &v : violations) { fprintf(f, "%s{\"desc\":\"%s\",\"file\":\"%s\"}", first ? "" : ",", esc(v.desc).c_str(), esc(v.file).c_str()); first = false; }
    fprintf(f, "]}\n");
}
int main(int argc, char **argv) {
    string only;
    lim.max_s = 30; lim.max_paths = 1000000;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--specs") specFile = nx(); else if (a == "--only") only = nx(); else if (a == "--out") outDir = nx();
        else if (a == "--json") jsonPath = nx(); else if (a == "--max-s") lim.max_s = atof(nx().c_str()); else if (a == "--max-paths") lim.max_paths = atol(nx().c_str());
        else if (a == "--replay") { bindFile = nx(); replayMode = true; } else if (a == "--novalidate") doValidate = false; else if (a == "--path-s") pathCpuLimit = atof(nx().c_str());
    }
    static char altstack[65536]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGABRT, SIGVTALRM, SIGILL}) sigaction(s, &sa, nullptr);
    g_crash = crashHook;
    vector<Spec> specs;
    if (replayMode) {
        std::ifstream in(bindFile); string line; bindMode = true; string desc;
        while (std::getline(in, line)) {
            std::istringstream ls(line); string k; ls >> k;
            if (k == "prop") ls >> prop; else if (k == "choices") { int x; while (ls >> x) bindChoices.push_back(x); }
            else if (k == "bind") { string n; string v; ls >> n >> v; bindVals[n] = strtod(v.c_str(), nullptr); }
            else if (k == "desc") std::getline(ls, desc); else if (k == "specfile") break;
        }
        if (prop == "term") pathCpuLimit = 15;
        specs = readSpecs(in); if (prop != "thread" && prop != "indep") api = &natApi; AT = Q(1, 1000000); VT = 5e-4;
    } else { std::ifstream in(specFile); specs = readSpecs(in); }
    for (auto &s : specs) {
        if (!only.empty() && s.name != only) continue;
        cur = &s; stats = Stats(); violations.clear(); cover.clear(); samples.clear(); mismatches.clear(); inconclusive = validated = valMismatch = 0; fnHit.clear(); violPerDesc.clear();
        specT0 = now();
        std::function<void()> body;
        try {
            body = selectBody();
            if (!body) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
            auto wrapped = [&] { armPathTimer(pathCpuLimit); body(); if ((int)violations.size() >= maxViol && !replayMode) { stats.stop = "violations"; } };
            explore([&] { if (stats.stop == "violations") throw PathEnd{"time"}; wrapped(); }, lim);
        } catch (EngineError &e) { stats.stop = string("engine error: ") + e.what(); }
        catch (z3::exception &e) { stats.stop = string("z3: ") + e.msg(); }
        armPathTimer(0);
        if (replayMode) {
            if (!violations.empty()) { for (auto &v : violations) printf("REPLAY VIOLATED %s\n", v.desc.c_str()); return 1; }
            printf("REPLAY OK stop=%s killed=%lu\n", stats.stop.c_str(), (unsigned long)stats.killed); return 0;
        }
        FILE *o = jsonPath.empty() ? stdout : fopen(jsonPath.c_str(), "a"); emitJson(o); if (o != stdout) fclose(o); else fflush(o);
    }
    return 0;
}
