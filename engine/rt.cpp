#include "rt.hpp"
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <pthread.h>

namespace rt {

// ------------------------------------------------------------------ values
static const uint64_t TAG = 0x7FFD000000000000ull, TAGMASK = 0xFFFF000000000000ull;
struct Val { Poly p; bool lazyAbs; };
static std::vector<Val> vals;
static std::vector<Var> vars;
static std::unordered_map<std::string, int> varIdx;
static std::vector<std::vector<int>> monos{{}};           // id -> sorted var ids
static std::map<std::vector<int>, int> monoIdx{{{}, 0}};
Stats stats;
z3::context *ctx = new z3::context();
static z3::solver *solver = nullptr;
static std::vector<z3::expr> varExpr;

static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double undbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
bool isSym(double d) { return (bits(d) & TAGMASK) == TAG; }
static Val &val(double d) {
    uint64_t i = bits(d) & 0xFFFFFFFFFFFFull;
    if (i >= vals.size()) throw EngineError("stale symbolic handle");
    return vals[i];
}
static double mk(const Poly &p, bool lazyAbs = false) {
    vals.push_back({p, lazyAbs});
    return undbl(TAG | (uint64_t)(vals.size() - 1));
}
double fromQ(const Q &q) {
    double d = q.get_d();
    if (std::isfinite(d) && Q(d) == q) return d;
    Poly p; p.t.push_back({0, q});
    return mk(p);
}
double fromPoly(const Poly &p) {
    if (p.isConst()) return fromQ(p.cst());
    return mk(p);
}
static double resolve(double d) {                          // settle a lazy |.|
    if (!isSym(d)) return d;
    Val v = val(d);
    if (!v.lazyAbs) return d;
    if (decide(v.p, 1)) return fromPoly(scale(v.p, Q(-1)));
    return fromPoly(v.p);
}
Poly toPoly(double d) {
    if (isSym(d)) { d = resolve(d); if (isSym(d)) return val(d).p; }
    if (!std::isfinite(d)) throw EngineError("toPoly of a non-finite value");
    Poly p; if (d != 0) p.t.push_back({0, Q(d)});
    return p;
}
bool symVarying(double d) { return isSym(d) && !val(d).p.isConst(); }

Poly operator+(const Poly &a, const Poly &b) {
    Poly r; size_t i = 0, j = 0; r.t.reserve(a.t.size() + b.t.size());
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) r.t.push_back(b.t[j++]);
        else { Q q = a.t[i].second + b.t[j].second; if (q != 0) r.t.push_back({a.t[i].first, q}); i++; j++; }
    }
    return r;
}
Poly scale(const Poly &a, const Q &q) {
    Poly r; if (q == 0) return r;
    r = a; for (auto &t : r.t) t.second *= q;
    return r;
}
Poly operator-(const Poly &a, const Poly &b) { return a + scale(b, Q(-1)); }
static int monoMul(int a, int b) {
    if (!a) return b; if (!b) return a;
    std::vector<int> m(monos[a]); m.insert(m.end(), monos[b].begin(), monos[b].end());
    std::sort(m.begin(), m.end());
    auto it = monoIdx.find(m);
    if (it != monoIdx.end()) return it->second;
    monos.push_back(m); int id = (int)monos.size() - 1; monoIdx[m] = id; return id;
}
Poly operator*(const Poly &a, const Poly &b) {
    if (a.isConst()) return scale(b, a.cst());
    if (b.isConst()) return scale(a, b.cst());
    std::map<int, Q> acc;
    for (auto &x : a.t) for (auto &y : b.t) acc[monoMul(x.first, y.first)] += x.second * y.second;
    Poly r; for (auto &k : acc) if (k.second != 0) r.t.push_back(k);
    return r;
}
std::string show(const Poly &p) {
    std::string s;
    for (auto &t : p.t) {
        if (!s.empty()) s += " + ";
        s += t.second.get_str();
        for (int v : monos[t.first]) s += "*" + vars[v].name;
    }
    return s.empty() ? "0" : s;
}

// ------------------------------------------------------------------ z3
static bool allInt(const Poly &p) {
    for (auto &t : p.t) for (int v : monos[t.first]) if (!vars[v].isInt) return false;
    return true;
}
static z3::expr num(const Q &q, bool asInt) {
    std::string s = q.get_str();
    return asInt ? ctx->int_val(s.c_str()) : ctx->real_val(s.c_str());
}
static z3::expr polyExpr(const Poly &p, bool asInt) {
    z3::expr_vector sum(*ctx);
    for (auto &t : p.t) {
        if (t.first == 0) { sum.push_back(num(t.second, asInt)); continue; }
        z3::expr_vector prod(*ctx);
        for (int v : monos[t.first]) {
            z3::expr e = varExpr[v];
            if (!asInt && vars[v].isInt) e = z3::expr(*ctx, Z3_mk_int2real(*ctx, e));
            prod.push_back(e);
        }
        if (t.second != 1 || prod.empty()) {
            z3::expr c = num(t.second, asInt);
            z3::expr m = prod[0]; for (unsigned i = 1; i < prod.size(); i++) m = m * prod[i];
            sum.push_back(c * m);
        } else { z3::expr m = prod[0]; for (unsigned i = 1; i < prod.size(); i++) m = m * prod[i]; sum.push_back(m); }
    }
    if (sum.empty()) return asInt ? ctx->int_val(0) : ctx->real_val(0);
    if (sum.size() == 1) return sum[0];
    return z3::sum(sum);
}
z3::expr realExpr(const Poly &p) { return polyExpr(p, false); }
static Poly intScaled(const Poly &p) {               // multiply by lcm of denominators
    mpz_class l = 1;
    for (auto &t : p.t) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den_mpz_t());
    return scale(p, Q(l));
}
z3::expr rel(const Poly &p0, const char *op) {
    bool ai = allInt(p0);
    Poly p = intScaled(p0);
    if (p.isConst()) {
        int s = sgn(p.cst()); bool b;
        if (!strcmp(op, "<")) b = s < 0; else if (!strcmp(op, "<=")) b = s <= 0; else if (!strcmp(op, "=")) b = s == 0;
        else if (!strcmp(op, ">=")) b = s >= 0; else if (!strcmp(op, ">")) b = s > 0; else b = s != 0;
        return ctx->bool_val(b);
    }
    Q c = p.cst(); Poly lin; for (auto &t : p.t) if (t.first) lin.t.push_back(t);
    z3::expr a = polyExpr(lin, ai), b = num(-c, ai);
    if (!strcmp(op, "<")) return a < b; if (!strcmp(op, "<=")) return a <= b; if (!strcmp(op, "=")) return a == b;
    if (!strcmp(op, ">=")) return a >= b; if (!strcmp(op, ">")) return a > b; return a != b;
}
static z3::expr maskExpr(const Poly &p, int mask) {
    switch (mask) {
    case 0: return ctx->bool_val(false); case 1: return rel(p, "<"); case 2: return rel(p, "="); case 3: return rel(p, "<=");
    case 4: return rel(p, ">"); case 5: return rel(p, "!="); case 6: return rel(p, ">="); default: return ctx->bool_val(true);
    }
}

// ------------------------------------------------------------------ path state
struct Entry {
    enum Type { BR, ASSUME, CHOICE } type;
    int value;              // BR: outcome, CHOICE: alternative
    int n;                  // CHOICE: number of alternatives
    bool open;              // other side still to explore
    bool pushed;            // solver level
    size_t sig;             // divergence check
    z3::expr other;         // BR & open: condition of the other side
    std::vector<Q> altModel; bool altModelValid;
};
static std::vector<Entry> trail;
static size_t pos = 0;
static std::vector<Q> model; static bool modelValid = false;
static double tStart = 0, tLimit = 1e18;
static int maxDepth = 4000;
static std::set<std::string> pathVars; // variables created on this path

double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
struct Interval { bool hasLo = false, loS = false, hasHi = false, hiS = false; Q lo, hi; std::vector<Q> ne; };
static std::unordered_map<std::string, Interval> known;

static bool numeral(const z3::expr &e, Q &q) {
    if (!e.is_numeral()) return false;
    std::string s = Z3_get_numeral_string(*ctx, e);
    try { q = Q(s); q.canonicalize(); } catch (...) { return false; }
    return true;
}
static bool fetchModel(std::vector<Q> &m) {
    z3::model zm = solver->get_model();
    m.assign(vars.size(), Q(0));
    for (size_t i = 0; i < vars.size(); i++) {
        z3::expr e = zm.eval(varExpr[i], true);
        if (!numeral(e, m[i])) return false;
    }
    return true;
}
static int check(unsigned timeout_ms) {
    double t0 = now(); stats.queries++;
    z3::params pr(*ctx); pr.set("timeout", timeout_ms); solver->set(pr);
    int r;
    try { z3::check_result c = solver->check(); r = c == z3::sat ? 1 : c == z3::unsat ? 0 : 2; }
    catch (z3::exception &e) { r = 2; }
    stats.solver_s += now() - t0;
    if (r == 2) stats.unknown++; else if (r == 1) stats.sat++; else stats.unsat++;
    return r;
}
static Q evalM(const Poly &p, const std::vector<Q> &m) {
    Q s = 0;
    for (auto &t : p.t) {
        Q x = t.second;
        for (int v : monos[t.first]) x *= v < (int)m.size() ? m[v] : Q(0);
        s += x;
    }
    return s;
}
Q evalPoly(const Poly &p, const std::map<std::string, Q> &m) {
    Q s = 0;
    for (auto &t : p.t) {
        Q x = t.second;
        for (int v : monos[t.first]) { auto it = m.find(vars[v].name); x *= it == m.end() ? Q(0) : it->second; }
        s += x;
    }
    return s;
}
bool atFrontier() { return pos >= trail.size(); }
bool hasModel() { return modelValid; }
std::map<std::string, Q> currentModel() {
    std::map<std::string, Q> r;
    if (!modelValid) { if (check(20000) == 1) modelValid = fetchModel(model); }
    for (size_t i = 0; i < vars.size() && i < model.size(); i++) r[vars[i].name] = model[i];
    return r;
}
static void budget() {
    if ((int)trail.size() > maxDepth) throw PathEnd{"depth"};
    if (now() > tLimit) throw PathEnd{"time"};
}

// ---- variables
static int varId(const std::string &name, bool isInt, bool hasLo, const Q &lo, bool hasHi, const Q &hi) {
    auto it = varIdx.find(name);
    int id;
    if (it == varIdx.end()) {
        id = (int)vars.size();
        vars.push_back({name, isInt, hasLo, hasHi, lo, hi});
        varExpr.push_back(isInt ? ctx->int_const(name.c_str()) : ctx->real_const(name.c_str()));
        varIdx[name] = id;
        std::vector<int> m{id}; monos.push_back(m); monoIdx[m] = (int)monos.size() - 1;
    } else id = it->second;
    return id;
}
static double varVal(int id) {
    Poly p; p.t.push_back({monoIdx[{id}], Q(1)});
    return mk(p);
}
static double newVar(const std::string &name, bool isInt, bool hasLo, Q lo, bool hasHi, Q hi, const Q *mv = nullptr) {
    int id = varId(name, isInt, hasLo, lo, hasHi, hi);
    vars[id].hasLo = hasLo; vars[id].hasHi = hasHi; vars[id].lo = lo; vars[id].hi = hi;
    Q v0 = 0; if (hasLo && v0 < lo) v0 = lo; if (hasHi && v0 > hi) v0 = hi; if (mv) v0 = *mv;
    double d = varVal(id);
    if (pos < trail.size()) { pos++; return d; }
    trail.push_back(Entry{Entry::ASSUME, 1, 0, false, true, 1, z3::expr(*ctx), {}, false}); pos++;
    solver->push();
    Poly p = val(d).p; Poly q;
    if (hasLo) { Poly c; if (lo != 0) c.t.push_back({0, lo}); solver->add(rel(p - c, ">=")); }
    if (hasHi) { Poly c; if (hi != 0) c.t.push_back({0, hi}); solver->add(rel(p - c, "<=")); }
    if (modelValid) { if ((int)model.size() <= id) model.resize(id + 1, Q(0)); model[id] = v0; }
    return d;
}
double newInt(const std::string &n, long lo, long hi) { return newVar(n, true, true, Q(lo), true, Q(hi)); }
double newReal(const std::string &n, bool hl, Q lo, bool hh, Q hi) { return newVar(n, false, hl, lo, hh, hi); }
static int freshCtr = 0;

// ---- decisions
static void normalise(const Poly &p, Poly &lin, Q &k, int &mask) {
    // p (mask) 0  <=>  lin (mask') k, lin primitive integer with positive first coefficient
    mpz_class l = 1, g = 0;
    for (auto &t : p.t) if (t.first) {
        mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den_mpz_t());
    }
    for (auto &t : p.t) if (t.first) {
        mpz_class n = t.second.get_num() * (l / t.second.get_den());
        mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), n.get_mpz_t());
    }
    Q f(l, g); f.canonicalize();
    bool neg = false;
    for (auto &t : p.t) if (t.first) { neg = t.second < 0; break; }
    if (neg) f = -f;
    lin.t.clear();
    for (auto &t : p.t) if (t.first) lin.t.push_back({t.first, t.second * f});
    k = -p.cst() * f;
    if (neg) mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2);
}
static std::string keyOf(const Poly &lin) {
    std::string s;
    for (auto &t : lin.t) { s.append((const char *)&t.first, 4); s += t.second.get_num().get_str(36); s += ','; }
    return s;
}
static void initInterval(const Poly &lin, Interval &iv) {
    Q lo = 0, hi = 0; bool hl = true, hh = true;
    for (auto &t : lin.t) {
        if (monos[t.first].size() != 1) { hl = hh = false; break; }
        const Var &v = vars[monos[t.first][0]];
        const Q &c = t.second;
        bool vl = c > 0 ? v.hasLo : v.hasHi, vh = c > 0 ? v.hasHi : v.hasLo;
        if (vl) lo += c * (c > 0 ? v.lo : v.hi); else hl = false;
        if (vh) hi += c * (c > 0 ? v.hi : v.lo); else hh = false;
    }
    iv.hasLo = hl; iv.hasHi = hh; iv.lo = lo; iv.hi = hi;
}
static mpz_class floorQ(const Q &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static mpz_class ceilQ(const Q &q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static void learn(Interval &iv, bool isInt, const Q &k, int mask) {
    // lin (mask) k holds
    if (mask == 1 || mask == 3 || mask == 2) { // upper
        bool s = mask == 1; Q b = k;
        if (isInt) { if (s) { b = Q(ceilQ(k) - 1); } else b = Q(floorQ(k)); s = false; }
        if (!iv.hasHi || b < iv.hi || (b == iv.hi && s)) { iv.hasHi = true; iv.hi = b; iv.hiS = s; }
    }
    if (mask == 4 || mask == 6 || mask == 2) {
        bool s = mask == 4; Q b = k;
        if (isInt) { if (s) { b = Q(floorQ(k) + 1); } else b = Q(ceilQ(k)); s = false; }
        if (!iv.hasLo || b > iv.lo || (b == iv.lo && s)) { iv.hasLo = true; iv.lo = b; iv.loS = s; }
    }
    if (mask == 5) iv.ne.push_back(k);
}
static int possible(const Interval &iv, bool isInt, const Q &k) {
    int m = 7;
    if (iv.hasLo) { if (iv.lo >= k) m &= ~1; if (iv.lo > k || (iv.lo == k && iv.loS)) m &= ~2; }
    if (iv.hasHi) { if (iv.hi <= k) m &= ~4; if (iv.hi < k || (iv.hi == k && iv.hiS)) m &= ~2; }
    if (isInt && k.get_den() != 1) m &= ~2;
    for (auto &q : iv.ne) if (q == k) m &= ~2;
    return m;
}
bool decide(const Poly &p, int mask) {
    if (p.isConst()) { int s = sgn(p.cst()); return (mask & (s < 0 ? 1 : s == 0 ? 2 : 4)) != 0; }
    Poly lin; Q k; normalise(p, lin, k, mask);
    bool isInt = allInt(lin);
    std::string key = keyOf(lin);
    auto it = known.find(key);
    if (it == known.end()) { Interval iv; initInterval(lin, iv); it = known.emplace(key, iv).first; }
    Interval &iv = it->second;
    int poss = possible(iv, isInt, k);
    if ((poss & mask) == 0) return false;
    if ((poss & mask) == poss) return true;
    size_t sig = std::hash<std::string>()(key) ^ (size_t)(mask * 1315423911u) ^ std::hash<double>()(k.get_d());
    bool out;
    if (pos < trail.size()) {
        Entry &e = trail[pos];
        if (e.type != Entry::BR || e.sig != sig) throw EngineError("divergence on re-execution");
        out = e.value; pos++;
    } else {
        budget();
        Poly q = lin; Poly kc; if (k != 0) kc.t.push_back({0, k}); q = q - kc;
        z3::expr cond = maskExpr(q, mask), ncond = maskExpr(q, 7 & ~mask);
        if (!modelValid) { int r = check(20000); if (r == 1) modelValid = fetchModel(model); else if (r == 0) throw PathEnd{"unsat"}; }
        int s = -1;
        if (modelValid) { Q v = evalM(lin, model) - k; s = (mask & (v < 0 ? 1 : v == 0 ? 2 : 4)) ? 1 : 0; }
        if (s < 0) { // no model: ask for both sides
            solver->push(); solver->add(cond); int r1 = check(20000); std::vector<Q> m1; bool v1 = r1 == 1 && fetchModel(m1); solver->pop();
            solver->push(); solver->add(ncond); int r0 = check(20000); std::vector<Q> m0; bool v0 = r0 == 1 && fetchModel(m0); solver->pop();
            if (r1 == 0 && r0 == 0) throw PathEnd{"unsat"};
            if (r1 == 0 || r0 == 0) {
                out = r1 != 0; stats.forced++;
                trail.push_back(Entry{Entry::BR, out, 0, false, false, sig, ncond, {}, false});
                if (out && v1) { model = m1; modelValid = true; } if (!out && v0) { model = m0; modelValid = true; }
            } else {
                out = true; stats.forks++;
                trail.push_back(Entry{Entry::BR, out, 0, true, true, sig, ncond, m0, v0});
                solver->push(); solver->add(cond);
                if (v1) { model = m1; modelValid = true; }
            }
        } else {
            z3::expr mine = s ? cond : ncond, oth = s ? ncond : cond;
            solver->push(); solver->add(oth);
            int r = check(20000); std::vector<Q> m2; bool v2 = r == 1 && fetchModel(m2);
            solver->pop();
            out = s;
            if (r == 0) { stats.forced++; trail.push_back(Entry{Entry::BR, out, 0, false, false, sig, oth, {}, false}); }
            else {
                stats.forks++;
                trail.push_back(Entry{Entry::BR, out, 0, true, true, sig, oth, m2, v2});
                solver->push(); solver->add(mine);
            }
        }
        pos++;
    }
    // note: 'known' may have been rehashed by nested calls? decide() does not nest.
    learn(iv, isInt, k, out ? mask : (7 & ~mask));
    return out;
}
std::vector<int> bindChoices; bool bindMode = false; static size_t bindPos = 0;
std::set<std::string> fnHit; bool nonIntegral = false;
std::vector<int> pathChoices() { std::vector<int> r; for (size_t i = 0; i < trail.size() && i < pos; i++) if (trail[i].type == Entry::CHOICE) r.push_back(trail[i].value); return r; }
int choose(int n, const char *what) {
    if (bindMode) { if (n <= 1) return 0; return bindPos < bindChoices.size() ? bindChoices[bindPos++] : 0; }
    size_t sig = std::hash<std::string>()(what) + n;
    if (n <= 1) return 0;
    if (pos < trail.size()) {
        Entry &e = trail[pos];
        if (e.type != Entry::CHOICE || e.sig != sig) throw EngineError("divergence on re-execution (choice)");
        pos++; return e.value;
    }
    budget(); stats.choices++;
    Entry e{Entry::CHOICE, 0, n, n > 1, false, sig, z3::expr(*ctx), model, modelValid};
    trail.push_back(e); pos++;
    return 0;
}
void assume(const std::function<z3::expr()> &f, const char *what) {
    size_t sig = std::hash<std::string>()(what);
    if (pos < trail.size()) {
        Entry &e = trail[pos];
        if (e.type != Entry::ASSUME || e.sig != sig) throw EngineError("divergence on re-execution (assume)");
        pos++;
        if (!e.value) throw PathEnd{"assume"};
        return;
    }
    budget();
    solver->push(); solver->add(f());
    Entry e{Entry::ASSUME, 1, 0, false, true, sig, z3::expr(*ctx), {}, false};
    int r = check(30000);
    if (r == 1) modelValid = fetchModel(model); else modelValid = false;
    if (r == 0) e.value = 0;
    trail.push_back(e); pos++;
    if (r == 0) { stats.infeasible_assume++; throw PathEnd{"assume"}; }
}
QueryResult query(const z3::expr &e, unsigned timeout_ms) {
    QueryResult q; stats.prop_queries++;
    solver->push(); solver->add(e);
    q.r = check(timeout_ms);
    if (q.r == 2 && timeout_ms > 2000) {
        // a fresh, non-incremental attempt
        z3::solver s2(*ctx); z3::params pr(*ctx); pr.set("timeout", timeout_ms); s2.set(pr);
        for (auto a : solver->assertions()) s2.add(a);
        double t0 = now();
        z3::check_result c = s2.check(); stats.solver_s += now() - t0; stats.queries++;
        if (c == z3::unsat) q.r = 0;
        if (c == z3::sat) {
            q.r = 1; z3::model zm = s2.get_model();
            for (size_t i = 0; i < vars.size(); i++) {
                Q v; z3::expr ve = zm.eval(varExpr[i], true);
                if (!numeral(ve, v)) { std::string s = ve.is_algebraic() ? ve.get_decimal_string(12) : "0"; if (!s.empty() && s.back() == '?') s.pop_back(); v = Q(atof(s.c_str())); }
                q.model[vars[i].name] = v;
            }
        }
        solver->pop(); return q;
    }
    if (q.r == 1) {
        z3::model zm = solver->get_model();
        for (size_t i = 0; i < vars.size(); i++) {
            Q v; z3::expr ve = zm.eval(varExpr[i], true);
            if (!numeral(ve, v)) { std::string s = ve.is_algebraic() ? ve.get_decimal_string(12) : "0"; if (!s.empty() && s.back() == '?') s.pop_back(); v = Q(atof(s.c_str())); }
            q.model[vars[i].name] = v;
        }
    }
    solver->pop();
    return q;
}

static bool backtrack() {
    while (!trail.empty()) {
        Entry e = trail.back(); trail.pop_back();
        if (e.pushed) solver->pop();
        if (!e.open) continue;
        if (e.type == Entry::BR) {
            solver->push(); solver->add(e.other);
            modelValid = e.altModelValid; model = e.altModel;
            trail.push_back(Entry{Entry::BR, !e.value, 0, false, true, e.sig, e.other, {}, false});
        } else {
            int v = e.value + 1;
            modelValid = e.altModelValid; model = e.altModel;
            Entry ne{Entry::CHOICE, v, e.n, v + 1 < e.n, false, e.sig, z3::expr(*ctx), e.altModel, e.altModelValid};
            trail.push_back(ne);
        }
        return true;
    }
    return false;
}
void explore(const std::function<void()> &body, const Limits &lim) {
    if (!solver) solver = new z3::solver(*ctx);
    tStart = now(); tLimit = tStart + lim.max_s; maxDepth = lim.max_depth;
    trail.clear(); modelValid = true; model.assign(vars.size(), Q(0));
    bool more = true;
    while (more) {
        pos = 0; vals.clear(); known.clear(); freshCtr = 0;
        env::reset();
        stats.paths++;
        try { body(); stats.complete++; }
        catch (PathEnd &e) {
            stats.killed++;
            if (e.why == "time") { stats.stop = "time"; env::freeLeftovers(); return; }
            if (e.why == "depth") stats.stop = "depth";
        }
        env::freeLeftovers();
        if (pos < trail.size()) throw EngineError("re-execution ended before its prefix");
        if (stats.paths >= lim.max_paths) { stats.stop = "paths"; return; }
        if (now() > tLimit) { stats.stop = "time"; return; }
        more = backtrack();
    }
    if (stats.stop.empty()) stats.exhausted = true;
}
static double freshReal(const char *base, const Q *mv) {
    char b[64]; snprintf(b, sizeof b, "%s!%d", base, freshCtr++);
    return newVar(b, false, false, 0, false, 0, mv);
}
static double freshInt(const char *base, const Q *mv) {
    char b[64]; snprintf(b, sizeof b, "%s!%d", base, freshCtr++);
    return newVar(b, true, false, 0, false, 0, mv);
}

// ------------------------------------------------------------------ arithmetic
static bool exactAdd(double a, double b, double s) {
    double bb = s - a; return (a - (s - bb)) + (b - bb) == 0;
}
static int signOf(double d) { // -1,0,1 of a finite (possibly symbolic) value; forks
    if (!isSym(d)) return d < 0 ? -1 : d > 0 ? 1 : 0;
    Poly p = toPoly(d);
    if (decide(p, 1)) return -1;
    if (decide(p, 2)) return 0;
    return 1;
}
static const int BASE = 0x5B000000;
static std::vector<double> intTok;
} // namespace rt

using namespace rt;
extern "C" {
double sym_fadd(double a, double b) {
    stats.fpops++;
    if (!isSym(a) && !isSym(b)) {
        double s = a + b;
        if (!std::isfinite(s) || exactAdd(a, b, s)) return s;
        return fromQ(Q(a) + Q(b));
    }
    if (!isSym(a) && !std::isfinite(a)) return a;
    if (!isSym(b) && !std::isfinite(b)) return b;
    if (!isSym(a) && a == 0) return resolve(b);
    if (!isSym(b) && b == 0) return resolve(a);
    return fromPoly(toPoly(a) + toPoly(b));
}
double sym_fneg(double a) {
    if (!isSym(a)) return -a;
    return fromPoly(scale(toPoly(a), Q(-1)));
}
double sym_fsub(double a, double b) {
    stats.fpops++;
    if (!isSym(a) && !isSym(b)) {
        double s = a - b;
        if (!std::isfinite(s) || exactAdd(a, -b, s)) return s;
        return fromQ(Q(a) - Q(b));
    }
    if (!isSym(a) && !std::isfinite(a)) return a;
    if (!isSym(b) && !std::isfinite(b)) return -b;
    return fromPoly(toPoly(a) - toPoly(b));
}
double sym_fmul(double a, double b) {
    stats.fpops++;
    if (!isSym(a) && !isSym(b)) {
        double s = a * b;
        if (!std::isfinite(a) || !std::isfinite(b)) return s;
        if (std::isfinite(s) && (s == 0 ? (a == 0 || b == 0) : std::fma(a, b, -s) == 0) && (s == 0 || std::fabs(s) > 1e-290)) return s;
        if (a == 0 || b == 0) return s;
        return fromQ(Q(a) * Q(b));
    }
    if (!isSym(a) && !std::isfinite(a)) { if (std::isnan(a)) return a; int s = signOf(b); return a * s; }
    if (!isSym(b) && !std::isfinite(b)) { if (std::isnan(b)) return b; int s = signOf(a); return b * s; }
    return fromPoly(toPoly(a) * toPoly(b));
}
double sym_fdiv(double a, double b) {
    stats.fpops++;
    if (!isSym(a) && !isSym(b)) {
        double s = a / b;
        if (!std::isfinite(a) || !std::isfinite(b) || b == 0) return s;
        if (std::isfinite(s) && std::fma(s, b, -a) == 0 && (s == 0 ? a == 0 : std::fabs(s) > 1e-290)) return s;
        return fromQ(Q(a) / Q(b));
    }
    if (!isSym(a) && !std::isfinite(a)) { if (std::isnan(a)) return a; int s = signOf(b); return s >= 0 ? a : -a; }
    if (!isSym(b) && !std::isfinite(b)) return std::isnan(b) ? b : 0.0;
    Poly pb = toPoly(b);
    if (pb.isConst()) {
        if (pb.cst() == 0) { int s = signOf(a); return s == 0 ? NAN : s * INFINITY; }
        return fromPoly(scale(toPoly(a), 1 / pb.cst()));
    }
    if (decide(pb, 2)) { int s = signOf(a); return s == 0 ? NAN : s * INFINITY; }
    Poly pa = toPoly(a);
    if (pa.t.size() == pb.t.size() && !pa.t.empty()) { // constant multiple?
        Q r = pa.t[0].second / pb.t[0].second; bool same = true;
        for (size_t i = 0; i < pa.t.size() && same; i++) same = pa.t[i].first == pb.t[i].first && pa.t[i].second == r * pb.t[i].second;
        if (same) return fromQ(r);
    }
    if (pa.t.empty()) return 0.0;
    // q with q*b = a; the same quotient on the same path is the same variable
    Q mv; Q *pm = nullptr;
    if (modelValid && atFrontier()) { Q d = evalM(pb, model); if (d != 0) { mv = evalM(pa, model) / d; pm = &mv; } }
    double q = freshReal("quot", pm);
    Poly pq = toPoly(q);
    if (atFrontier()) {
        trail.push_back(Entry{Entry::ASSUME, 1, 0, false, true, 7, z3::expr(*ctx), {}, false}); pos++;
        solver->push(); solver->add(rel(pq * pb - pa, "="));
        if (!pm) modelValid = false;
    } else pos++;
    return q;
}
double sym_frem(double a, double b) {
    if (!isSym(a) && !isSym(b)) return std::fmod(a, b);
    throw EngineError("fmod of a symbolic value");
}
double sym_fabs(double a) {
    if (!isSym(a)) return std::fabs(a);
    Val v = val(a);
    if (v.lazyAbs) return a;
    if (v.p.isConst()) { Poly p; p.t.push_back({0, Q(abs(v.p.cst()))}); return fromPoly(p); }
    return mk(v.p, true);
}
double sym_fmax(double a, double b) {
    if (!isSym(a) && std::isnan(a)) return b; if (!isSym(b) && std::isnan(b)) return a;
    return sym_fcmp(4, a, b) ? b : a;
}
double sym_fmin(double a, double b) {
    if (!isSym(a) && std::isnan(a)) return b; if (!isSym(b) && std::isnan(b)) return a;
    return sym_fcmp(4, a, b) ? a : b;
}
double sym_fma(double a, double b, double c) { return sym_fadd(sym_fmul(a, b), c); }
double sym_copysign(double a, double b) {
    double x = sym_fabs(a); if (isSym(b) ? signOf(b) < 0 : std::signbit(b)) return sym_fneg(x); return x;
}
bool sym_fcmp(int pred, double a, double b) {
    // pred: bit0 eq, bit1 gt, bit2 lt, bit3 unordered (LLVM encoding)
    stats.fpops++;
    static const int P[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
    int m = P[pred];
    if (!isSym(a) && !isSym(b)) {
        if (std::isnan(a) || std::isnan(b)) return m & 8;
        if (a == b) return m & 1; if (a > b) return m & 2; return m & 4;
    }
    if (!isSym(a) && !std::isfinite(a)) { if (std::isnan(a)) return m & 8; return a > 0 ? m & 2 : m & 4; }
    if (!isSym(b) && !std::isfinite(b)) { if (std::isnan(b)) return m & 8; return b > 0 ? m & 4 : m & 2; }
    int mask = ((m & 4) ? 1 : 0) | ((m & 1) ? 2 : 0) | ((m & 2) ? 4 : 0);
    if (mask == 0) return false; if (mask == 7) return true;
    return decide(toPoly(a) - toPoly(b), mask);
}
bool sym_fpclass(double a, int mask) {
    // 1 snan 2 qnan 4 -inf 8 -normal 16 -sub 32 -0 64 +0 128 +sub 256 +normal 512 +inf
    int c;
    if (isSym(a)) {
        int neg = mask & 8, zer = mask & 64, posi = mask & 256;
        if (!!neg == !!zer && !!zer == !!posi) return neg != 0;
        int s = signOf(a); return s < 0 ? neg : s == 0 ? zer : posi;
    }
    switch (std::fpclassify(a)) {
    case FP_NAN: c = 2; break; case FP_INFINITE: c = a < 0 ? 4 : 512; break; case FP_ZERO: c = std::signbit(a) ? 32 : 64; break;
    case FP_SUBNORMAL: c = a < 0 ? 16 : 128; break; default: c = a < 0 ? 8 : 256;
    }
    return mask & c;
}
int64_t sym_bits(double a) {
    if (!isSym(a)) { int64_t u; memcpy(&u, &a, 8); return u; }
    // only the sign bit of a symbolic value may matter (isinf, signbit); it is
    // left positive, the callers combine it with a comparison against infinity
    return 0x3FF0000000000000ll;
}
static double floorLike(double a, int kind) { // 0 floor, 1 ceil, 2 trunc, 3 round-half-away
    a = resolve(a);
    Poly p = toPoly(a);
    if (p.isConst() && p.cst().get_den() != 1) nonIntegral = true;
    if (p.isConst()) {
        Q c = p.cst(); mpz_class z;
        if (kind == 0 || (kind == 2 && c >= 0)) z = floorQ(c);
        else if (kind == 1 || kind == 2) z = ceilQ(c);
        else z = c >= 0 ? floorQ(c + Q(1, 2)) : ceilQ(c - Q(1, 2));
        return fromQ(Q(z));
    }
    bool intForm = allInt(p);
    if (intForm) for (auto &t : p.t) if (t.second.get_den() != 1) intForm = false;
    if (intForm) return a;
    nonIntegral = true;
    int neg = 0; if (kind >= 2) neg = decide(p, 1);
    Poly half; half.t.push_back({0, Q(1, 2)});
    Poly base = kind == 3 ? (neg ? p - half : p + half) : p;
    bool down = kind == 0 || (kind >= 2 && !neg);
    Q mv, *pm = nullptr;
    if (modelValid && atFrontier()) { Q v = evalM(base, model); mv = Q(down ? floorQ(v) : ceilQ(v)); pm = &mv; }
    double t = freshInt("int", pm);
    Poly pt = toPoly(t), one; one.t.push_back({0, Q(1)});
    if (atFrontier()) {
        trail.push_back(Entry{Entry::ASSUME, 1, 0, false, true, 9, z3::expr(*ctx), {}, false}); pos++;
        solver->push();
        if (down) { solver->add(rel(pt - base, "<=")); solver->add(rel(pt + one - base, ">")); }
        else { solver->add(rel(pt - base, ">=")); solver->add(rel(pt - one - base, "<")); }
        if (!pm) modelValid = false;
    } else pos++;
    return t;
}
double sym_floor(double a) { if (isSym(a)) return floorLike(a, 0); double r = std::floor(a); if (r != a) nonIntegral = true; return r; }
double sym_ceil(double a) { if (isSym(a)) return floorLike(a, 1); double r = std::ceil(a); if (r != a) nonIntegral = true; return r; }
double sym_trunc(double a) { if (isSym(a)) return floorLike(a, 2); double r = std::trunc(a); if (r != a) nonIntegral = true; return r; }
double sym_round(double a) { if (isSym(a)) return floorLike(a, 3); double r = std::round(a); if (r != a) nonIntegral = true; return r; }
double sym_sqrt(double a) { if (isSym(a)) throw EngineError("sqrt of a symbolic value"); return std::sqrt(a); }
double sym_pow(double a, double b) { if (isSym(a) || isSym(b)) throw EngineError("pow of a symbolic value"); return std::pow(a, b); }
double sym_log(double a) { if (isSym(a)) throw EngineError("log of a symbolic value"); return std::log(a); }
double sym_exp(double a) { if (isSym(a)) throw EngineError("exp of a symbolic value"); return std::exp(a); }
int64_t sym_tosi(double a, int w) {
    if (!isSym(a)) {
        if (std::isnan(a) || std::fabs(a) > (w == 64 ? 9.2e18 : 2147483647.0)) return w == 64 ? INT64_MIN : INT32_MIN;
        if ((double)(int64_t)a != a) nonIntegral = true;
        return (int64_t)a;
    }
    double t = floorLike(a, 2);
    if (!isSym(t)) return (int64_t)t;
    intTok.push_back(t);
    if (intTok.size() > 0xFFFFFF) throw EngineError("too many integer tokens");
    return BASE + (int64_t)intTok.size() - 1;
}
int64_t sym_lround(double a) { return sym_tosi(sym_round(a), 64); }
uint64_t sym_toui(double a, int w) {
    if (!isSym(a)) return (uint64_t)a;
    a = resolve(a); double t = floorLike(a, 0);
    if (!isSym(t)) return (uint64_t)t;
    // concretise: enumerate values by branching
    for (;;) {
        auto m = currentModel();
        Q v = evalPoly(toPoly(t), m); Poly c; if (v != 0) c.t.push_back({0, v});
        if (decide(toPoly(t) - c, 2)) return (uint64_t)v.get_d();
    }
}
double sym_si2d(int64_t i) {
    if (i >= BASE && i < BASE + (int64_t)intTok.size()) return intTok[i - BASE];
    return (double)i;
}
double sym_ui2d(uint64_t i) { return (double)i; }
}

// ------------------------------------------------------------------ environment
namespace rt { namespace env {
uint64_t alloc_calls, clock_calls, threads_created, printed, entries, clock_after, tol_asserts = 0, max_entries = 0, clock_free = 2;
bool alloc_faults, alloc_failed, thread_fault, time_cut, timed_out, exit_called, thread_failed;
int thread_mode; unsigned char fill = 0xA5;
static std::unordered_map<void *, size_t> live;
// accesses of the two threads between creation and join (race variant)
int region = 0;                                  // 0 outside, 1 main thread, 2 second thread
bool track_races = false; std::string race;
static std::unordered_map<uintptr_t, unsigned char> acc; // per byte: 1 main read 2 main write 4 thread read 8 thread write
static std::vector<void *> quarantine;
static std::vector<std::pair<uintptr_t, uintptr_t>> stacks;
static void drop(void *p) { if (region) quarantine.push_back(p); else free(p); }
void endRegion() {
    region = 0; for (void *p : quarantine) free(p); quarantine.clear();
    if (race.empty()) for (auto &k : acc) { unsigned char a = k.second; if (((a & 2) && (a & 12)) || ((a & 8) && (a & 3))) {
        for (auto &b : live) if (k.first >= (uintptr_t)b.first && k.first < (uintptr_t)b.first + b.second) { race = "block of " + std::to_string(b.second) + " bytes, offset " + std::to_string(k.first - (uintptr_t)b.first); break; }
        if (race.empty()) race = "memory outside the heap"; break; } }
    acc.clear();
}
// accesses of two presolvers to static (not thread-local) variables
int life = 0; static std::unordered_map<uintptr_t, unsigned char> stat;
} }
extern "C" char __data_start, _end;
namespace rt { namespace env {
std::string sharedStatics() {
    for (auto &k : stat) { unsigned char a = k.second; if (((a & 2) && (a & 12)) || ((a & 8) && (a & 3))) return "static variable"; }
    return "";
}
static void access(void *p, size_t n, bool w) {
    if (life && (char *)p >= &__data_start && (char *)p < &_end) for (size_t i = 0; i < n; i++) stat[(uintptr_t)p + i] |= life == 1 ? (w ? 2 : 1) : (w ? 8 : 4);
    if (!region) return; unsigned char m = region == 1 ? (w ? 2 : 1) : (w ? 8 : 4);
    for (size_t i = 0; i < n; i++) acc[(uintptr_t)p + i] |= m;
}
struct Thr { void *(*f)(void *); void *a; bool done; };
static std::vector<Thr> thr;
static double clk;
size_t live_blocks() { return live.size(); }
void freeLeftovers() { for (auto &p : live) free(p.first); live.clear(); }
void reset() {
    freeLeftovers(); clock_free = 2; alloc_calls = clock_calls = threads_created = printed = 0; alloc_failed = timed_out = exit_called = thread_failed = alloc_faults = thread_fault = time_cut = track_races = false; thread_mode = 0; fill = 0xA5; max_entries = 0;
    life = 0; stat.clear(); thr.clear(); clk = 0; intTok.clear(); region = 0; acc.clear(); quarantine.clear(); race.clear(); nonIntegral = false; entries = 0; clock_after = 0;
}
static bool failNow() {
    alloc_calls++;
    if (!alloc_faults || alloc_failed) return false;
    if (choose(2, "alloc")) { alloc_failed = true; return true; }
    return false;
}
}}
namespace E = rt::env;
void (*g_crash)(const char *why) = nullptr;
extern "C" {
void *env_malloc(size_t n) { if (E::failNow()) return nullptr; void *p = malloc(n ? n : 1); memset(p, E::fill, n ? n : 1); E::live[p] = n; return p; }
void *env_calloc(size_t a, size_t b) { if (E::failNow()) return nullptr; void *p = calloc(a ? a : 1, b ? b : 1); E::live[p] = a * b; return p; }
void env_free(void *p) {
    if (!p) return;
    auto it = E::live.find(p);
    if (it == E::live.end()) { if (g_crash) g_crash("free of a pointer that is not allocated (double free or invalid free)"); throw PathEnd{"badfree"}; }
    E::live.erase(it); E::drop(p);
}
void *env_realloc(void *p, size_t n) {
    if (!p) return env_malloc(n);
    if (E::failNow()) return nullptr;
    auto it = E::live.find(p);
    if (it == E::live.end()) { if (g_crash) g_crash("realloc of a pointer that is not allocated"); throw PathEnd{"badfree"}; }
    void *q = malloc(n ? n : 1);            // always move: stale pointers show up
    memset(q, E::fill, n ? n : 1); memcpy(q, p, std::min(it->second, n));
    E::live.erase(it); E::drop(p);
    E::live[q] = n; return q;
}
void *env_aligned_alloc(size_t, size_t n) { return env_malloc(n); }
char *env_strdup(const char *s) { char *p = (char *)env_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
int env_pthread_create(pthread_t *t, const void *, void *(*f)(void *), void *a) {
    if (E::thread_fault && choose(2, "thread")) { E::thread_failed = true; return 11; }
    *t = (pthread_t)(E::thr.size() + 1);
    E::thr.push_back({f, a, E::thread_mode == 0}); E::threads_created++;
    if (E::track_races) { E::acc.clear(); E::region = 2; }
    if (E::thread_mode == 0) f(a);
    if (E::track_races) E::region = 1;
    return 0;
}
int env_pthread_join(pthread_t t, void **r) {
    size_t i = (size_t)t - 1;
    if (i >= E::thr.size()) { if (g_crash) g_crash("join of a thread that was never created"); throw PathEnd{"badjoin"}; }
    if (!E::thr[i].done) { E::thr[i].done = true; if (E::track_races) E::region = 2; E::thr[i].f(E::thr[i].a); }
    if (E::track_races) E::endRegion();
    if (r) *r = nullptr;
    return 0;
}
int env_clock_gettime(int, struct timespec *ts) {
    E::clock_calls++;
    if (E::timed_out) E::clock_after++;
    if (E::time_cut && E::clock_calls > E::clock_free && !E::timed_out && choose(2, "clock")) { E::timed_out = true; E::clk = 1e6; }
    E::clk += 0.0078125;
    E::access(ts, sizeof *ts, true); // libc writes it on behalf of the caller
    ts->tv_sec = (time_t)E::clk; ts->tv_nsec = (long)((E::clk - (double)ts->tv_sec) * 1e9);
    return 0;
}
long env_time(long *t) { if (t) *t = (long)E::clk; return (long)E::clk; }
long env_clock() { return (long)(E::clk * 1e6); }
int env_gettimeofday(struct timeval *, void *) { return -1; }
int env_printf(const char *, ...) { E::printed++; return 0; }
int env_fprintf(void *, const char *, ...) { return 0; }
int env_vprintf(const char *, va_list) { E::printed++; return 0; }
int env_puts(const char *) { E::printed++; return 0; }
int env_putchar(int c) { E::printed++; return c; }
int env_fputs(const char *, void *) { return 0; }
int env_fputc(int c, void *) { return c; }
int env_fflush(void *) { return 0; }
void env_enter(const char *f) { if (++E::entries == E::max_entries && E::max_entries) { if (g_crash) g_crash("no termination: function call budget exhausted"); throw PathEnd{"steps"}; } static std::unordered_map<const char *, bool> seen; if (fnHit.empty()) seen.clear(); bool &b = seen[f]; if (!b) { b = true; fnHit.insert(f); } }
size_t env_fwrite(const void *, size_t a, size_t b, void *) { return b; }
void env_qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) {
    if (n) E::access(b, n * w, true);
    qsort(b, n, w, c);
}
int env_rand() { return 4; }
void env_srand(unsigned) {}
void env_exit(int) { E::exit_called = true; if (g_crash) g_crash("the library called exit()"); throw PathEnd{"exit"}; }
void env_abort() { if (g_crash) g_crash("the library called abort()"); throw PathEnd{"abort"}; }
void env___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    char b[1024]; const char *s = strrchr(f, '/'); snprintf(b, sizeof b, "assertion `%s` in %s (%s)", e, fn, s ? s + 1 : f);
    // an assertion within a numerical tolerance is not a statement about every value:
    // derived bounds are moved by a margin of the size of the tolerance on purpose
    if (strstr(e, "_TOL")) { E::tol_asserts++; throw PathEnd{"tolerance assertion"}; }
    if (g_crash) g_crash(b);
    throw PathEnd{"assert"};
}
}

// ------------------------------------------------------------------ access callbacks of the race variant
extern "C" {
#define ACC(n) void __tsan_read##n(void *p) { E::access(p, n, false); } void __tsan_write##n(void *p) { E::access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { E::access(p, n, false); } void __tsan_unaligned_write##n(void *p) { E::access(p, n, true); } \
    void __tsan_read_write##n(void *p) { E::access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { E::access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_init() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { E::access((void *)s, n, false); E::access(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { E::access((void *)s, n, false); E::access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { E::access(d, n, true); return memset(d, c, n); }
}
