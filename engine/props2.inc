// ------------------------------------------------------------------ further properties (included by harness.cpp)
extern "C" void free(void *);
static bool sameNum(double a, double b, z3::expr_vector &v) { // false: certainly different
    if (!fin(a) || !fin(b)) { if (fin(a) != fin(b)) return false; return memcmp(&a, &b, 8) == 0 || a == b; }
    if (!isSym(a) && !isSym(b)) return a == b || (replayMode && std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)));
    Poly d = toPoly(a) - toPoly(b); if (d.t.empty()) return true;
    v.push_back(replayMode ? vNE(d) : rel(d, "!=")); return true;
}
static bool sameVec(const vector<double> &a, const vector<double> &b, const string &what) {
    if (a.size() != b.size()) { fail(what + " (size)"); return false; }
    z3::expr_vector v(*ctx);
    for (size_t i = 0; i < a.size(); i++) if (!sameNum(a[i], b[i], v)) { fail(what); return false; }
    if (v.empty()) return true;
    return !forbid(disj(v), what);
}
static bool sameLP(const LP &a, const LP &b, const string &what) {
    if (a.m != b.m || a.n != b.n) { fail(what + ": dimensions"); return false; }
    if (a.Ap != b.Ap || a.Ai != b.Ai) { fail(what + ": sparsity"); return false; }
    return sameVec(a.Ax, b.Ax, what + ": coefficients") && sameVec(a.lhs, b.lhs, what + ": left-hand sides") && sameVec(a.rhs, b.rhs, what + ": right-hand sides") &&
           sameVec(a.lb, b.lb, what + ": lower bounds") && sameVec(a.ub, b.ub, what + ": upper bounds") && sameVec(a.c, b.c, what + ": costs");
}
struct Snap { PresolveStatus status; LP red; double off = 0; vector<double> x, y, z; };
// exact-size copies of the inputs on the heap: overruns show up under AddressSanitizer
struct Inputs {
    double *Ax, *lhs, *rhs, *lb, *ub, *c; int *Ai, *Ap; LP lp;
    template <class U> static U *cp(const vector<U> &v) { U *p = (U *)malloc(std::max<size_t>(1, v.size() * sizeof(U))); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(U)); return p; }
    explicit Inputs(const LP &l) : lp(l) { Ax = cp(l.Ax); lhs = cp(l.lhs); rhs = cp(l.rhs); lb = cp(l.lb); ub = cp(l.ub); c = cp(l.c); Ai = cp(l.Ai); Ap = cp(l.Ap); }
    bool intact() const {
        auto eq = [](const void *a, const auto &v) { return v.empty() || !memcmp(a, v.data(), v.size() * sizeof(v[0])); };
        return eq(Ax, lp.Ax) && eq(lhs, lp.lhs) && eq(rhs, lp.rhs) && eq(lb, lp.lb) && eq(ub, lp.ub) && eq(c, lp.c) && eq(Ai, lp.Ai) && eq(Ap, lp.Ap);
    }
    void scramble() {
        for (size_t i = 0; i < lp.Ax.size(); i++) { Ax[i] = 777; Ai[i] = 123456; }
        for (auto &p : {std::make_pair(lhs, lp.m), std::make_pair(rhs, lp.m), std::make_pair(lb, lp.n), std::make_pair(ub, lp.n), std::make_pair(c, lp.n)}) for (size_t i = 0; i < p.second; i++) p.first[i] = NAN;
        for (size_t i = 0; i <= lp.m; i++) Ap[i] = 99999;
    }
    ~Inputs() { for (void *p : {(void *)Ax, (void *)lhs, (void *)rhs, (void *)lb, (void *)ub, (void *)c, (void *)Ai, (void *)Ap}) free(p); }
    Presolver *create(const Settings *st) { return api->new_presolver(Ax, Ai, Ap, lp.m, lp.n, lp.nnz(), lhs, rhs, lb, ub, c, st); }
};
static Snap snap(Presolver *P, PresolveStatus s) {
    Snap r; r.status = s; if (s == UNCHANGED || s == REDUCED) { r.red = reducedLP(P); r.off = P->reduced_prob->obj_offset; } return r;
}
static void grabSol(Presolver *P, Snap &s) {
    s.x.assign(P->sol->x, P->sol->x + P->sol->dim_x); s.y.assign(P->sol->y, P->sol->y + P->sol->dim_y); s.z.assign(P->sol->z, P->sol->z + P->sol->dim_x);
}
static bool sameSnap(const Snap &a, const Snap &b, const string &what) {
    if (a.status != b.status) { fail(what + ": status"); return false; }
    if (a.status != UNCHANGED && a.status != REDUCED) return true;
    return sameLP(a.red, b.red, what) && sameVec({a.off}, {b.off}, what + ": objective offset") && sameVec(a.x, b.x, what + ": postsolved x") &&
           sameVec(a.y, b.y, what + ": postsolved y") && sameVec(a.z, b.z, what + ": postsolved z");
}
struct Sol3 { vector<double> x, y, z; };
static Sol3 freeSol(const char *p, const LP &r) { // any values at all: postsolve is a function of them
    string s(p); Sol3 o; o.x = freshVec((s + "x").c_str(), r.n); o.y = freshVec((s + "y").c_str(), r.m); o.z = freshVec((s + "z").c_str(), r.n); return o;
}
static void callPost(Presolver *P, const Sol3 &s) {
    double *x = Inputs::cp(s.x), *y = Inputs::cp(s.y), *z = Inputs::cp(s.z);
    api->postsolve(P, x, y, z);
    auto same = [](double *p, const vector<double> &v) { return v.empty() || !memcmp(p, v.data(), v.size() * 8); };
    if (!same(x, s.x) || !same(y, s.y) || !same(z, s.z)) fail("postsolve modified its input arrays");
    free(x); free(y); free(z);
}
static void val1(Ctx &c, Presolver *P, PresolveStatus st) { c.P = P; c.status = st; validate(c, nullptr, nullptr, nullptr); c.P = nullptr; }

// --- well-formedness of the result: 0 structure, 1 trivial reductions, 2 status and statistics
static void bodyWf(int part) {
    Ctx c; if (!startPath(c)) return;
    const Presolver *P = c.P; const LP &o = c.lp;
    auto bad = [&](const string &s) { if (part == 0) fail("result malformed: " + s); };
    auto triv = [&](const string &s) { if (part == 1) fail("reduction left undone: " + s); };
    auto stat = [&](const string &s) { if (part == 2) fail("status or statistics wrong: " + s); };
    if (c.status != UNCHANGED && c.status != REDUCED && c.status != INFEASIBLE && c.status != UNBNDORINFEAS) stat("undocumented status");
    bool freeRows = false; for (size_t i = 0; i < o.m; i++) if (!fin(o.lhs[i]) && !fin(o.rhs[i])) freeRows = true;
    if (!P->stats || P->stats->n_rows_original != o.m || P->stats->n_cols_original != o.n || P->stats->nnz_original != o.nnz()) stat("statistics of the original problem");
    if (!P->sol || P->sol->dim_x != o.n || P->sol->dim_y != o.m) bad("solution dimensions");
        if (solved(c)) {
        const PresolvedProblem *q = P->reduced_prob; bool ok = true;
        if (q->m > o.m || q->n > o.n) { bad("more rows or columns than the original"); ok = false; }
        if (q->Ap[0] != 0 || (size_t)q->Ap[q->m] != q->nnz) { bad("row pointers do not span the nonzeros"); ok = false; }
        for (size_t i = 0; ok && i < q->m; i++) if (q->Ap[i + 1] < q->Ap[i]) { bad("row pointers decrease"); ok = false; }
        if (ok) {
            vector<int> colcnt(q->n, 0);
            for (size_t i = 0; i < q->m; i++) {
                if (q->Ap[i + 1] - q->Ap[i] < 2) triv("row with fewer than two nonzeros left");
                for (int k = q->Ap[i]; k < q->Ap[i + 1]; k++) {
                    if (q->Ai[k] < 0 || (size_t)q->Ai[k] >= q->n) { bad("column index out of range"); ok = false; break; }
                    colcnt[q->Ai[k]]++;
                    if (k > q->Ap[i] && q->Ai[k] <= q->Ai[k - 1]) bad("columns of a row not strictly increasing");
                    if (!fin(q->Ax[k])) bad("coefficient not finite");
                    else if (part == 0) forbid(rel(toPoly(q->Ax[k]), "="), "result malformed: explicit zero coefficient");
                }
            }
            for (size_t j = 0; ok && j < q->n; j++) if (!colcnt[j]) triv("empty column left");
            z3::expr_vector v(*ctx), w(*ctx), u(*ctx);
            for (size_t i = 0; i < q->m; i++) {
                if (badNum(q->lhs[i]) || badNum(q->rhs[i])) bad("row side is NaN");
                if ((!fin(q->lhs[i]) && q->lhs[i] > 0) || (!fin(q->rhs[i]) && q->rhs[i] < 0)) bad("row side infinite in the wrong direction");
                if (fin(q->lhs[i]) && fin(q->rhs[i])) v.push_back(rel(toPoly(q->lhs[i]) - toPoly(q->rhs[i]), ">"));
                if (!fin(q->lhs[i]) && !fin(q->rhs[i]) && !freeRows) triv("row without any finite side left");
            }
            for (size_t j = 0; j < q->n; j++) {
                if (badNum(q->lbs[j]) || badNum(q->ubs[j])) bad("bound is NaN");
                if ((!fin(q->lbs[j]) && q->lbs[j] > 0) || (!fin(q->ubs[j]) && q->ubs[j] < 0)) bad("bound infinite in the wrong direction");
                if (fin(q->lbs[j]) && fin(q->ubs[j])) { w.push_back(rel(toPoly(q->lbs[j]) - toPoly(q->ubs[j]), "=")); u.push_back(rel(toPoly(q->lbs[j]) - toPoly(q->ubs[j]), ">")); }
                if (!fin(q->c[j])) bad("cost not finite");
            }
            if (!fin(q->obj_offset)) bad("objective offset not finite");
            if (part == 0) { forbid(disj(v), "result malformed: row with lhs > rhs"); forbid(disj(u), "result malformed: column with lb > ub"); }
            if (part == 1) forbid(disj(w), "reduction left undone: column with lb = ub left");
        }
        if (P->stats->n_rows_reduced != q->m || P->stats->n_cols_reduced != q->n || P->stats->nnz_reduced != q->nnz) stat("statistics of the reduced problem");
        size_t rem = P->stats->nnz_removed_trivial + P->stats->nnz_removed_fast + P->stats->nnz_removed_primal_propagation + P->stats->nnz_removed_parallel_rows + P->stats->nnz_removed_parallel_cols;
        if (rem != o.nnz() - q->nnz) stat("the numbers of removed nonzeros do not add up");
        bool same = q->m == o.m && q->n == o.n && q->nnz == o.nnz();
        if (same != (c.status == UNCHANGED)) stat("status disagrees with the dimensions");
        if (part == 2 && c.status == UNCHANGED && ok) {
            LP r = reducedLP(P);
            if (r.Ap != o.Ap || r.Ai != o.Ai) stat("UNCHANGED but the sparsity changed");
            else { sameVec(r.Ax, o.Ax, "UNCHANGED but a coefficient changed"); sameVec(r.c, o.c, "UNCHANGED but a cost changed"); sameVec({q->obj_offset}, {0.0}, "UNCHANGED but the offset is not zero"); }
        }
                cover["wf_checked"]++;
    }
    validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
// --- memory safety and leaks over the life cycle
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
static void readable(const void *p, size_t bytes, const char *what) {
    if (!bytes) return;
    if (!p) fail(std::string(what) + " is missing");
    else if (__asan_region_is_poisoned && __asan_region_is_poisoned((void *)p, bytes)) fail(std::string(what) + " is shorter than documented");
}
static void bodyMem() {
    int mode = choose(4, "lifecycle"); // 0 create+free, 1 run, 2 run+postsolve, 3 run+postsolve twice
    size_t live0 = env::live_blocks();
    Ctx c; c.lp = buildLP(); Inputs in(c.lp);
    c.st = makeSettings(); env::thread_mode = choose(2, "schedule");
    c.P = in.create(c.st);
    if (!c.P) { fail("new_presolver returned NULL without an allocation failure"); return; }
    if (mode >= 1) { c.status = api->run_presolver(c.P); noteStatus(c.status);
        if (solved(c)) {
            const PresolvedProblem &q = *c.P->reduced_prob;
            readable(q.Ap, (q.m + 1) * sizeof(int), "reduced Ap"); readable(q.Ai, q.nnz * sizeof(int), "reduced Ai"); readable(q.Ax, q.nnz * 8, "reduced Ax");
            readable(q.lhs, q.m * 8, "reduced lhs"); readable(q.rhs, q.m * 8, "reduced rhs"); readable(q.lbs, q.n * 8, "reduced lbs"); readable(q.ubs, q.n * 8, "reduced ubs"); readable(q.c, q.n * 8, "reduced c");
        }
        if (mode == 1) validate(c, nullptr, nullptr, nullptr); }
    if (mode >= 2 && solved(c)) {
        LP r = reducedLP(c.P); Sol3 s = freeSol("s", r);
        callPost(c.P, s); if (mode == 3) callPost(c.P, s);
        cover["postsolved"]++;
        readable(c.P->sol->x, c.P->sol->dim_x * 8, "solution x"); readable(c.P->sol->z, c.P->sol->dim_x * 8, "solution z"); readable(c.P->sol->y, c.P->sol->dim_y * 8, "solution y");
        for (size_t j = 0; j < c.P->sol->dim_x; j++) if (badNum(c.P->sol->x[j])) fail("postsolved x is NaN");
    }
    api->free_presolver(c.P); api->free_settings(c.st); api->free_presolver(nullptr);
    if (env::live_blocks() != live0) fail("memory still allocated after free_presolver and free_settings (leak)");
    env::thread_mode = 0;
    cover["lifecycle_" + std::to_string(mode)]++;
}
// --- inputs are not modified and are copied
static void bodyInputs() {
    Ctx c; c.lp = buildLP(); c.st = makeSettings(); Settings keep = *c.st;
    Snap a, b; Sol3 s; bool have = false;
    {
        Inputs in(c.lp); Presolver *P = in.create(c.st);
        if (!P) { fail("new_presolver returned NULL without an allocation failure"); return; }
        if (!in.intact()) fail("new_presolver modified its inputs");
        PresolveStatus st = api->run_presolver(P); noteStatus(st);
        if (!in.intact()) fail("run_presolver modified the caller's arrays");
        a = snap(P, st);
        if (st == UNCHANGED || st == REDUCED) { s = freeSol("s", a.red); have = true; callPost(P, s); grabSol(P, a); }
        if (!in.intact()) fail("postsolve modified the caller's problem arrays");
        val1(c, P, st);
        api->free_presolver(P);
        if (!in.intact()) fail("free_presolver modified the caller's arrays");
    }
    {
        Presolver *P; { Inputs in(c.lp); P = in.create(c.st); in.scramble(); }   // the arrays are gone now
        PresolveStatus st = api->run_presolver(P); b = snap(P, st);
        if (have && (st == UNCHANGED || st == REDUCED) && b.red.n == a.red.n && b.red.m == a.red.m) { callPost(P, s); grabSol(P, b); }
        sameSnap(a, b, "result depends on the caller's arrays after new_presolver");
        api->free_presolver(P);
    }
    if (memcmp(&keep, c.st, sizeof keep)) fail("the settings were modified");
    api->free_settings(c.st);
}
// --- determinism and isolation between presolvers
static void bodyDet() {
    Ctx c; c.lp = buildLP(); c.st = makeSettings(); Snap a, b; Sol3 s; bool have = false;
    env::fill = 0xA5;
    {
        Presolver *P = create(c.lp, c.st); if (!P) { fail("new_presolver returned NULL without an allocation failure"); return; }
        PresolveStatus st = api->run_presolver(P); noteStatus(st); a = snap(P, st);
        if (st == UNCHANGED || st == REDUCED) { s = freeSol("s", a.red); have = true; callPost(P, s); grabSol(P, a); }
        val1(c, P, st); api->free_presolver(P);
    }
    static const double oAx[] = {1, 2, 1, 1, 2, 1, 1, 1}, ol[] = {-INFINITY, 2, 1}, orr[] = {4, 2, INFINITY}, olb[] = {0, 0, 0}, oub[] = {INFINITY, 5, 5}, oc[] = {1, 1, -1};
    static const int oAi[] = {0, 1, 2, 0, 1, 2, 1, 2}, oAp[] = {0, 3, 6, 8};
    env::fill = 0x7F;
    {   // another problem is created, presolved and freed in between
        Presolver *O = api->new_presolver(oAx, oAi, oAp, 3, 3, 8, ol, orr, olb, oub, oc, c.st);
        Presolver *P = create(c.lp, c.st); api->run_presolver(O);
        PresolveStatus st = api->run_presolver(P); b = snap(P, st);
        Presolver *O2 = api->new_presolver(oAx, oAi, oAp, 3, 3, 8, ol, orr, olb, oub, oc, c.st); api->run_presolver(O2); api->free_presolver(O);
        if (have && b.status == a.status && b.red.n == a.red.n && b.red.m == a.red.m) { callPost(P, s); grabSol(P, b); }
        sameSnap(a, b, "two runs on the same problem differ");
        api->free_presolver(O2); api->free_presolver(P);
    }
    // ... and once more after presolvers that stop early: infeasible in the trivial, fast and medium phase, unbounded
    static const double xl[4][3] = {{5, 0, 0}, {1, 0, -1}, {90, 1, 0}, {0, 0, 0}}, xu[4][3] = {{INFINITY, 4, 4}, {1, 3, 1}, {INFINITY, 7, 6}, {INFINITY, 4, 6}}, yl[4][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}},
        yu[4][3] = {{3, 9, 9}, {.4, .4, 9}, {5, 5, 5}, {9, 9, INFINITY}}, yc[4][3] = {{1, -1, 1}, {1, -1, 1}, {1, -1, 1}, {1, -1, -1}};
    static const double xA[4][7] = {{1, 1, 2, 1, 1, -1, 1}, {1, 1, 1, -1, 1, 1, 2}, {1, 2, 3, 1, -1, 1, 1}, {1, 2, 1, 1, -1, 2, 1}};
    static const int xi[4][7] = {{0, 0, 1, 2, 0, 1, 2}, {0, 1, 0, 1, 2, 0, 2}, {0, 1, 2, 0, 1, 1, 2}, {0, 1, 2, 0, 1, 0, 1}}, xp[4][4] = {{0, 1, 4, 7}, {0, 2, 5, 7}, {0, 3, 5, 7}, {0, 3, 5, 7}};
    for (int kind = 0; kind < 4; kind++) {
        Settings *so = api->default_settings(); so->verbose = false; env::fill = 0x33;
        Presolver *O = api->new_presolver(xA[kind], xi[kind], xp[kind], 3, 3, 7, xl[kind], xu[kind], yl[kind], yu[kind], yc[kind], so);
        cover["before_" + std::to_string(kind) + "_status_" + std::to_string(api->run_presolver(O))]++; api->free_presolver(O); api->free_settings(so);
        Presolver *P = create(c.lp, c.st); PresolveStatus st = api->run_presolver(P); b = snap(P, st);
        if (have && b.status == a.status && b.red.n == a.red.n && b.red.m == a.red.m) { callPost(P, s); grabSol(P, b); }
        sameSnap(a, b, "a run after a presolver that stopped early differs");
        api->free_presolver(P);
    }
    env::fill = 0xA5; api->free_settings(c.st);
}
// --- postsolve can be repeated and leaves the reduced problem alone
static void bodyPost() {
    Ctx c; if (!startPath(c)) return;
    if (solved(c)) {
        LP r = reducedLP(c.P); double off = c.P->reduced_prob->obj_offset; PresolvedProblem keep = *c.P->reduced_prob;
        Sol3 s = freeSol("s", r), t = freeSol("t", r); Snap a = snap(c.P, c.status), b = a, d = a;
        callPost(c.P, s); grabSol(c.P, a); cover["postsolved"]++;
        callPost(c.P, t); grabSol(c.P, d); callPost(c.P, s); grabSol(c.P, b);
        sameSnap(a, b, "repeated postsolve of the same solution differs");
        if (memcmp(&keep, c.P->reduced_prob, sizeof keep)) fail("postsolve replaced the reduced problem");
        LP r2 = reducedLP(c.P); sameLP(r, r2, "postsolve modified the reduced problem");
        sameVec({off}, {c.P->reduced_prob->obj_offset}, "postsolve modified the objective offset");
        if (c.P->sol->dim_x != c.lp.n || c.P->sol->dim_y != c.lp.m) fail("postsolve changed the solution dimensions");
        solFinite(c, true, true);
    }
    validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
// --- the two threads of new_presolver: schedules and data races
static void bodyThread() {
    Ctx c; c.lp = buildLP(); c.st = makeSettings(); Snap a, b; Sol3 s; bool have = false;
    env::track_races = true;
    for (int mode = 0; mode < 2; mode++) {
        env::thread_mode = mode; uint64_t t0 = env::threads_created;
        Presolver *P = create(c.lp, c.st); if (!P) { fail("new_presolver returned NULL without an allocation failure"); break; }
        if (env::threads_created > t0) cover["thread_regions"]++;
        if (!env::race.empty()) fail("data race between the threads of new_presolver [" + env::race + "]");
        PresolveStatus st = api->run_presolver(P); Snap &q = mode ? b : a; q = snap(P, st); if (!mode) noteStatus(st);
        if (st == UNCHANGED || st == REDUCED) {
            if (!mode) { s = freeSol("s", a.red); have = true; }
            if (have && q.red.n == a.red.n && q.red.m == a.red.m) { callPost(P, s); grabSol(P, q); }
        }
        if (!mode) { env::track_races = false; val1(c, P, st); env::track_races = true; }
        api->free_presolver(P);
        if (mode) sameSnap(a, b, "result depends on the thread schedule");
    }
    env::track_races = false; env::thread_mode = 0; api->free_settings(c.st);
}
// --- presolvers do not share anything: neither static variables (threads) nor leftovers of interleaved calls
static void bodyIndep() {
    static const double oAx[] = {1, 2, 1, 2, 4, 2, 1, -1, 1, 1, 1, 2, 3, 3, 1, 1, 1, 2}, ol[] = {-INFINITY, -INFINITY, 2, 1, 0, -INFINITY, -1}, orr[] = {4, 7, 2, INFINITY, 0, 30, 9}, olb[] = {0, 0, -INFINITY, 0, 0, 1}, oub[] = {INFINITY, 5, 5, 6, 6, INFINITY}, oc[] = {1, 1, -1, 2, 2, 0};
    static const int oAi[] = {0, 1, 2, 0, 1, 2, 1, 2, 0, 3, 4, 5, 3, 4, 0, 1, 2, 5}, oAp[] = {0, 3, 6, 8, 12, 14, 16, 18};
    auto other = [&](Settings *st) { return api->new_presolver(oAx, oAi, oAp, 7, 6, 18, ol, orr, olb, oub, oc, st); };
    auto postOther = [&](Presolver *O, PresolveStatus q) { if (q == UNCHANGED || q == REDUCED) { vector<double> x(O->reduced_prob->n + 1, 1), y(O->reduced_prob->m + 1, 0), z(O->reduced_prob->n + 1, 0); api->postsolve(O, x.data(), y.data(), z.data()); } };
    Ctx c; c.lp = buildLP(); c.st = makeSettings(); Settings *so = api->default_settings(); so->verbose = false; Snap a, b; Sol3 s; bool have = false;
    {
        env::life = 1; Presolver *P = create(c.lp, c.st); if (!P) { fail("new_presolver returned NULL without an allocation failure"); return; }
        PresolveStatus st = api->run_presolver(P); env::life = 0; noteStatus(st); a = snap(P, st);
        if (st == UNCHANGED || st == REDUCED) { s = freeSol("s", a.red); have = true; env::life = 1; callPost(P, s); env::life = 0; grabSol(P, a); }
        val1(c, P, st); env::life = 1; api->free_presolver(P); env::life = 0;
    }
    int order = choose(6, "order"); cover["order_" + std::to_string(order)]++;
    env::life = 2;
    Presolver *O = nullptr, *P = nullptr; PresolveStatus st = 0, q = 0; bool od = false;
    auto nP = [&] { P = create(c.lp, c.st); }; auto nO = [&] { O = other(so); }; auto rP = [&] { st = api->run_presolver(P); }; auto rO = [&] { q = api->run_presolver(O); };
    auto pP = [&] { int l = env::life; env::life = 0; b = snap(P, st); env::life = l; if (have && b.status == a.status && b.red.n == a.red.n && b.red.m == a.red.m) { callPost(P, s); grabSol(P, b); } }; auto pO = [&] { postOther(O, q); };
    auto fO = [&] { api->free_presolver(O); od = true; };
    switch (order) {
        case 0: nP(); nO(); rP(); rO(); pP(); pO(); break;
        case 1: nO(); nP(); rP(); rO(); pO(); pP(); break;
        case 2: nO(); rO(); nP(); fO(); rP(); pP(); break;
        case 3: nP(); nO(); rO(); rP(); fO(); pP(); break;
        case 4: nP(); rP(); nO(); rO(); pO(); fO(); pP(); break;
        default: nO(); nP(); rO(); pO(); rP(); pO(); pP(); break;
    }
    sameSnap(a, b, "the result depends on calls for another presolver");
    if (!od) fO(); api->free_presolver(P); env::life = 0;
    if (!env::sharedStatics().empty()) fail("two presolvers share a static variable that one of them writes");
    api->free_settings(c.st); api->free_settings(so);
}
// --- an allocation (or the creation of the thread) fails inside new_presolver
static void bodyAlloc() {
    Ctx c; c.lp = buildLP();
    size_t live0 = env::live_blocks();
    env::alloc_faults = true; c.st = makeSettings(); env::alloc_faults = false;
    if (!c.st) { if (env::live_blocks() != live0) fail("default_settings leaks after an allocation failure"); cover["settings_failed"]++; return; }
    bool f0 = env::alloc_failed; (void)f0;
    env::thread_mode = choose(2, "schedule"); env::alloc_faults = true; env::thread_fault = true;
    Inputs in(c.lp); c.P = in.create(c.st); env::alloc_faults = env::thread_fault = false; env::thread_mode = 0;
    if (c.P && env::alloc_failed) fail("new_presolver reported success although an allocation failed");
    if (!c.P && !env::alloc_failed && !env::thread_failed) fail("new_presolver returned NULL without an allocation failure");
    if (!c.P) cover["returned_null"]++;
    else {
        cover["returned_presolver"]++;
        PresolveStatus st = api->run_presolver(c.P); noteStatus(st); { Presolver *k = c.P; val1(c, k, st); c.P = k; }
        if (st == UNCHANGED || st == REDUCED) { LP r = reducedLP(c.P); Sol3 s; s.x.assign(r.n, 1.0); s.y.assign(r.m, 1.0); s.z.assign(r.n, 1.0); callPost(c.P, s); }
    }
    if (!in.intact()) fail("new_presolver modified its inputs");
    api->free_presolver(c.P); api->free_settings(c.st);
    if (env::live_blocks() != live0) fail(c.P ? "memory still allocated after free_presolver" : "new_presolver leaks memory after an allocation failure");
}
// --- the time limit may expire at any reading of the clock
static void bodyTime() {
    Ctx c; c.lp = buildLP(); c.st = makeSettings(); c.P = create(c.lp, c.st);
    if (!c.P) { fail("new_presolver returned NULL without an allocation failure"); return; }
    env::clock_free = env::clock_calls + 1; env::time_cut = true;   // the first reading is the start of the measurement
    uint64_t p0 = env::printed; c.status = api->run_presolver(c.P); noteStatus(c.status);
    env::time_cut = false; if (env::printed != p0) fail("output although verbose is off");
    if (env::timed_out) { cover["timed_out"]++; cover["max_readings_after"] = std::max(cover["max_readings_after"], (uint64_t)env::clock_after); if (env::clock_after > 24) fail("presolve went on after the time limit had expired"); }
    if (solved(c)) {
        Red r = redSolution(c, 2); runPost(c, r); cover["postsolved"]++;
        if (solFinite(c, true, true)) {
            PV x = solX(c), y = solY(c), z = solZ(c); bool bad = false;
            bad |= forbid(infeasPointF(c.lp, x), "postsolved point violates the original constraints");
            Poly d = dot(c.lp.c, x) - dot(r.lp.c, r.xp) - toPoly(c.P->reduced_prob->obj_offset);
            bad |= forbid(vNE(d), "objective of the postsolved point differs from reduced objective plus offset");
            PV rc = redCost(c.lp, y); z3::expr_vector v(*ctx);
            for (size_t j = 0; j < c.lp.n; j++) v.push_back(vNE(z[j] - rc[j]));
            bad |= forbid(disj(v), "postsolved duals are not stationary: z differs from c - A'y");
        }
    }
    if (!env::timed_out) validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
// --- presolve and postsolve terminate within a number of function calls
static void bodyTerm() {
    env::max_entries = 400000;
    Ctx c; if (!startPath(c)) return;
    if (solved(c)) { LP r = reducedLP(c.P); Sol3 s = freeSol("s", r); callPost(c.P, s); cover["postsolved"]++; }
    uint64_t e = env::entries; if (e > cover["max_calls"]) cover["max_calls"] = e;
    env::max_entries = 0; validate(c, nullptr, nullptr, nullptr);
    endPath(c); env::max_entries = 0;
}
// --- debug build: every internal assertion and the debugger hold
static void bodyDbg() {
    Ctx c; if (!startPath(c)) return;
    if (solved(c)) { Red r = redSolution(c, 2); runPost(c, r); cover["postsolved"]++; validate(c, &r.x, &r.y, &r.z); } else validate(c, nullptr, nullptr, nullptr);
    endPath(c);
}
// --- settings
static bool hasTrivial(const LP &lp) {
    for (size_t i = 0; i < lp.m; i++) if (lp.Ap[i + 1] - lp.Ap[i] < 2) return true;
    vector<int> cnt(lp.n, 0); for (int j : lp.Ai) cnt[j]++;
    for (int k : cnt) if (!k) return true;
    return false;
}
static void checkDefaults() {
    Settings *s = api->default_settings(); if (!s) return;
    bool on = s->ston_cols && s->dton_eq && s->parallel_rows && s->parallel_cols && s->primal_propagation && s->finite_bound_tightening && s->dual_fix && s->relax_bounds;
    if (!on || !s->verbose || s->max_shift != 10 || s->max_time != 60.0) fail("default_settings does not give the documented defaults");
    api->set_settings_false(s);
    if (s->ston_cols || s->dton_eq || s->parallel_rows || s->parallel_cols || s->primal_propagation || s->finite_bound_tightening || s->dual_fix || s->relax_bounds || s->verbose) fail("set_settings_false leaves a setting on");
    if (s->max_shift != 10 || s->max_time != 60.0) fail("set_settings_false changes the limits");
    api->set_settings_true(s);
    on = s->ston_cols && s->dton_eq && s->parallel_rows && s->parallel_cols && s->primal_propagation && s->finite_bound_tightening && s->dual_fix && s->relax_bounds && s->verbose;
    if (!on) fail("set_settings_true leaves a setting off");
    if (s->max_shift != 10 || s->max_time != 60.0) fail("set_settings_true changes the limits");
    api->free_settings(s);
}
static void bodySettings() {
    checkDefaults();
    // verbose does not influence the result, and without it nothing is printed
    Ctx c; c.lp = buildLP(); c.st = makeSettings(); Settings keep = *c.st; Snap a, b; Sol3 s; bool have = false;
    for (int v = 0; v < 2; v++) {
        c.st->verbose = v; uint64_t p0 = env::printed;
        Presolver *P = create(c.lp, c.st); PresolveStatus st = api->run_presolver(P); Snap &q = v ? b : a; q = snap(P, st); if (!v) noteStatus(st);
        if (st == UNCHANGED || st == REDUCED) { if (!v) { s = freeSol("s", a.red); have = true; } if (have && q.red.n == a.red.n && q.red.m == a.red.m) { callPost(P, s); grabSol(P, q); }
 }
        if (!v && env::printed != p0) fail("output although verbose is off");
        if (v) sameSnap(a, b, "verbose changes the result");
        else { c.st->verbose = false; val1(c, P, st); }
        api->free_presolver(P);
    }
    c.st->verbose = keep.verbose;
    if (memcmp(&keep, c.st, sizeof keep)) fail("the settings were modified");
    // what the settings of this skeleton rule out
    for (auto &e : cur->expects) {
        cover["expect_" + e]++;
        if (e == "identity") {
            if (a.status != UNCHANGED) fail("a reduction was performed although its setting is off");
            else { sameLP(c.lp, a.red, "the problem changed although the settings allow no reduction"); sameVec({a.off}, {0.0}, "objective offset although the settings allow no reduction"); }
        } else if (e == "unchanged") { if (a.status != UNCHANGED) fail("a reduction was performed although its setting is off"); }
        else if (e == "reduced") { if (a.status == UNCHANGED) fail("an enabled reduction was not performed"); }
        else if (e == "keepcols") { if ((a.status == REDUCED || a.status == UNCHANGED) && (a.red.n != c.lp.n)) fail("columns were removed although the settings allow only row reductions"); }
        else if (e == "keeprows") { if ((a.status == REDUCED || a.status == UNCHANGED) && (a.red.m != c.lp.m)) fail("rows were removed although the settings allow only column reductions"); }
        else if (e == "solved") { if (a.status != UNCHANGED && a.status != REDUCED) fail("status differs from what the settings allow"); }
        else if (e == "samebounds" || e == "tighter") {
            if (a.status != UNCHANGED) fail("the problem was reduced although its settings allow bound changes only");
            else if (e == "samebounds") { sameVec(c.lp.lb, a.red.lb, "a finite lower bound changed although finite_bound_tightening is off"); sameVec(c.lp.ub, a.red.ub, "a finite upper bound changed although finite_bound_tightening is off"); }
            else { z3::expr_vector v(*ctx); bool diff = false; for (size_t j = 0; j < c.lp.n; j++) for (int k = 0; k < 2; k++) { double u = k ? c.lp.ub[j] : c.lp.lb[j], w = k ? a.red.ub[j] : a.red.lb[j]; if (fin(u) && fin(w)) v.push_back(rel(toPoly(u) - toPoly(w), "=")); else if (fin(u) || fin(w)) diff = true; }
                if (!diff) forbid(conj(v), "finite_bound_tightening has no effect"); }
        }
        else if (e == "nottighter") {
            if (a.status != UNCHANGED) fail("the problem was reduced although its settings allow bound changes only");
            else for (size_t j = 0; j < c.lp.n; j++) for (int k = 0; k < 2; k++) { double u = k ? c.lp.ub[j] : c.lp.lb[j], w = k ? a.red.ub[j] : a.red.lb[j]; if (fin(u) && fin(w)) forbid(k ? rel(toPoly(u) - toPoly(w), ">") : rel(toPoly(w) - toPoly(u), ">"), "a finite bound was tightened although finite_bound_tightening is off"); }
        }
        else throw EngineError("unknown expectation " + e);
    }
    api->free_settings(c.st);
}
static std::function<void()> selectBody() {
    static const std::map<string, std::function<void()>> b = {
        {"infeas", bodyInfeas}, {"unbnd", bodyUnbnd}, {"primal", bodyPrimal}, {"obj", bodyObj}, {"station", [] { bodyKkt(false); }}, {"kkt", [] { bodyKkt(true); }},
        {"opt", bodyOpt}, {"lost", bodyLost}, {"wf", [] { bodyWf(0); }}, {"triv", [] { bodyWf(1); }}, {"status", [] { bodyWf(2); }}, {"mem", bodyMem}, {"inputs", bodyInputs}, {"det", bodyDet}, {"post", bodyPost}, {"thread", bodyThread}, {"indep", bodyIndep},
        {"alloc", bodyAlloc}, {"time", bodyTime}, {"term", bodyTerm}, {"dbg", bodyDbg}, {"settings", bodySettings}};
    auto it = b.find(prop); return it == b.end() ? nullptr : it->second;
}
