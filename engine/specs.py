#!/usr/bin/env python3
"""LP skeletons: concrete sparsity and coefficients (mostly dyadic), symbolic sides,
bounds and costs.  Every skeleton is decided for all integer values of its symbols."""
import random, sys

INF = 'inf'; NINF = '-inf'

class LP:
    def __init__(self, name, family):
        self.name, self.family = name, family
        self.rows, self.cols, self.set, self.extra = [], [], {}, []
    def row(self, lhs, rhs, ent):
        self.rows.append([lhs, rhs, dict(ent)]); return len(self.rows) - 1
    def col(self, lb, ub, c):
        self.cols.append([lb, ub, c]); return len(self.cols) - 1
    def nsym(self):
        k = 0
        for l, r, e in self.rows:
            for t in [l, r, *e.values()]:
                k += str(t)[0] in 'IRT'
        for c in self.cols:
            for t in c: k += str(t)[0] in 'IRT'
        return k
    def text(self):
        o = ['spec %s %s %d %d' % (self.name, self.family, len(self.rows), len(self.cols))]
        for i, (l, r, e) in enumerate(self.rows):
            o.append('row %d %s %s %s' % (i, l, r, ' '.join('%d:%s' % (j, e[j]) for j in sorted(e))))
        for j, (l, u, c) in enumerate(self.cols):
            o.append('col %d %s %s %s' % (j, l, u, c))
        for k, v in self.set.items():
            o.append('set %s %s' % (k, v))
        o += self.extra
        return '\n'.join(o) + '\n'

COEF = [1, 1, 1, -1, -1, 2, -2, 0.5, -0.5, 4, -4]
REDS = ['ston_cols', 'dton_eq', 'parallel_rows', 'parallel_cols', 'primal_propagation', 'finite_bound_tightening', 'dual_fix', 'relax_bounds']

class Gen:
    """random skeletons around one planted structure; deterministic in the seed"""
    def __init__(self, seed):
        self.r = random.Random(seed)
    def coef(self):
        return self.r.choice(COEF)
    def colkind(self, kinds='nnnbbbfpu'):
        k = self.r.choice(kinds); r = self.r
        if k == 'n': return 0, INF
        if k == 'b': lo = r.randint(-3, 1); return lo, lo + r.randint(1, 6)
        if k == 'f': return NINF, INF
        if k == 'p': return NINF, r.randint(-1, 4)
        if k == 'u': return r.randint(-4, 2), INF
    def rowkind(self, kinds='lgger'):
        k = self.r.choice(kinds); r = self.r; b = r.randint(-3, 6)
        if k == 'l': return NINF, b
        if k == 'g': return b, INF
        if k == 'e': return b, b
        if k == 'r': return b, b + r.randint(1, 6)
        if k == 'z': return NINF, INF
    def cost(self):
        return self.r.choice([0, 0, 1, 1, 2, -1, -1, 3, -2])
    def symbolise(self, lp, k, what='bounds', prefer_rows=(), prefer_cols=()):
        r = self.r; places = []
        if what in ('bounds', 'both'):
            for i, (l, u, e) in enumerate(lp.rows):
                w = 3 if i in prefer_rows else 1
                if l == u and isinstance(l, (int, float)): places += [('eq', i)] * w
                else:
                    if isinstance(l, (int, float)): places += [('lhs', i)] * w
                    if isinstance(u, (int, float)): places += [('rhs', i)] * w
            for j, (l, u, c) in enumerate(lp.cols):
                w = 3 if j in prefer_cols else 1
                if isinstance(l, (int, float)): places += [('lb', j)] * w
                if isinstance(u, (int, float)): places += [('ub', j)] * w
        if what in ('cost', 'both'):
            for j, (l, u, c) in enumerate(lp.cols):
                if isinstance(c, (int, float)): places += [('c', j)] * (3 if j in prefer_cols else 1)
        done = set()
        while k and places:
            p = r.choice(places); places = [q for q in places if q != p]
            if p in done: continue
            done.add(p); k -= 1
            t, i = p; lo = r.choice([-4, -3, -5]); hi = r.choice([5, 6, 8])
            v = {'eq': lambda: lp.rows[i][0], 'lhs': lambda: lp.rows[i][0], 'rhs': lambda: lp.rows[i][1], 'lb': lambda: lp.cols[i][0], 'ub': lambda: lp.cols[i][1], 'c': lambda: 0}[t]()
            if abs(v) > 4: v = int(round(v)); lo, hi = v - 4, v + 5
            if t == 'eq': lp.rows[i][0] = 'I:%d:%d' % (lo, hi); lp.rows[i][1] = '=lhs%d' % i
            elif t == 'lhs': lp.rows[i][0] = 'I:%d:%d' % (lo, hi)
            elif t == 'rhs': lp.rows[i][1] = 'I:%d:%d' % (lo, hi)
            elif t == 'lb': lp.cols[i][0] = 'I:%d:%d' % (lo, hi)
            elif t == 'ub': lp.cols[i][1] = 'I:%d:%d' % (lo, hi)
            elif t == 'c': lp.cols[i][2] = 'I:-3:3'
        return lp
    def plant(self, lp, dual=True):
        """move sides, bounds and costs so that the problem has a feasible point (and an optimal one)"""
        r = self.r; num = lambda t: isinstance(t, (int, float)); x, y = [], []
        integral = lambda v: int(v) if v == int(v) else v
        for c in lp.cols:
            l, u = c[0], c[1]
            x.append(r.choice([l, u, r.randint(int(l), int(u)) if l == int(l) and u == int(u) else l]) if num(l) and num(u) else r.choice([l, l + 1, l + 2]) if num(l) else r.choice([u, u - 1, u - 3]) if num(u) else r.randint(-2, 3))
        for row in lp.rows:
            a = integral(sum(v * x[j] for j, v in row[2].items())); l, u = row[0], row[1]; s = r.choice([0, 0, 1, 2]); t = r.choice([0, 0, 1, 3]); yi = 0
            if num(l) and num(u) and l == u: row[0] = row[1] = a; yi = r.choice([0, 1, -1, 2])
            else:
                if num(l) and num(u) and s + t == 0: t = 2
                if num(l): row[0] = a - s; yi = r.choice([0, 1, 2]) if s == 0 else yi
                if num(u): row[1] = a + t; yi = r.choice([0, -1, -2]) if t == 0 else yi
            y.append(yi)
        if dual:
            for j, c in enumerate(lp.cols):
                z = 0
                if num(c[0]) and x[j] == c[0]: z = r.choice([0, 1, 2])
                if num(c[1]) and x[j] == c[1]: z = r.choice([0, -1, -2]) if z == 0 or r.random() < .5 else z
                c[2] = integral(z + sum(y[i] * row[2][j] for i, row in enumerate(lp.rows) if j in row[2]))
    def base(self, name, fam, m, n, dens=0.6, colk='nnnbbbfpu', rowk='lgger', mincol=1):
        lp = LP(name, fam); r = self.r
        for _ in range(n):
            l, u = self.colkind(colk); lp.col(l, u, self.cost())
        for _ in range(m):
            l, u = self.rowkind(rowk); js = [j for j in range(n) if r.random() < dens]
            while len(js) < min(2, n): js = sorted(set(js + [r.randrange(n)]))
            lp.row(l, u, {j: self.coef() for j in js})
        return lp

def shuffle_rows(g, lp):
    g.r.shuffle(lp.rows)

def fam_ston_row(g, name):
    lp = g.base(name, 'ston_row', g.r.randint(1, 2), g.r.randint(2, 3)); n = len(lp.cols)
    k = g.r.randint(1, 3)
    for _ in range(k):
        l, u = g.rowkind('lgerr'); lp.row(l, u, {g.r.randrange(n): g.coef()})
    shuffle_rows(g, lp)
    return lp, [i for i in range(len(lp.rows)) if len(lp.rows[i][2]) == 1], []
def fam_empty(g, name):
    lp = g.base(name, 'empty', g.r.randint(1, 2), g.r.randint(2, 3))
    for _ in range(g.r.randint(1, 2)):
        l, u = g.colkind('nbfpu'); lp.cols.insert(g.r.randint(0, 0), [l, u, g.cost()])
        for row in lp.rows: row[2] = {j + 1: a for j, a in row[2].items()}
    if g.r.random() < .6: lp.rows.insert(g.r.randint(0, len(lp.rows)), [*g.rowkind('lgerz'), {}])
    return lp, [i for i in range(len(lp.rows)) if not lp.rows[i][2]], [0]
def fam_dualfix(g, name):
    lp = g.base(name, 'dualfix', g.r.randint(1, 3), g.r.randint(2, 4), rowk='lglge', colk='nnuubpf')
    j = g.r.randrange(len(lp.cols)); sgn = g.r.choice([1, -1])
    for row in lp.rows:    # column j has locks in one direction only
        if row[0] == row[1] and j in row[2] and len(row[2]) > 2: del row[2][j]
        elif j in row[2]:
            a = abs(row[2][j]); row[2][j] = sgn * a if row[0] != NINF else -sgn * a
    lp.cols[j][2] = g.r.choice([0, 1, -1, 0]) * 1
    return lp, [i for i in range(len(lp.rows)) if j in lp.rows[i][2]], [j]
def fam_stoncol(g, name):
    lp = g.base(name, 'stoncol', g.r.randint(1, 3), g.r.randint(2, 3), rowk='legrlg')
    m = len(lp.rows); new = []
    for _ in range(g.r.randint(1, 2)):
        l, u = g.colkind('ffnubp'); j = lp.col(l, u, g.cost()); i = g.r.randrange(m); lp.rows[i][2][j] = g.coef(); new.append((i, j))
    return lp, [i for i, _ in new], [j for _, j in new]
def fam_dton(g, name):
    lp = g.base(name, 'dton', g.r.randint(1, 3), g.r.randint(2, 4), rowk='lgre')
    n = len(lp.cols)
    rows = []
    for _ in range(g.r.randint(1, 2)):
        a, b = g.r.sample(range(n), 2); v = g.r.randint(-2, 5)
        rows.append(lp.row(v, v, {a: g.coef(), b: g.coef()}))
    if g.r.random() < .5: shuffle_rows(g, lp)
    rows = [i for i in range(len(lp.rows)) if len(lp.rows[i][2]) == 2]
    return lp, rows, sorted({j for i in rows for j in lp.rows[i][2]})
def fam_act(g, name):
    lp = g.base(name, 'activity', g.r.randint(1, 3), g.r.randint(2, 4), dens=.75, colk='bbbbnu', rowk='lgrle')
    return lp, range(len(lp.rows)), range(len(lp.cols))
def fam_parrow(g, name):
    lp = g.base(name, 'parrow', g.r.randint(1, 2), g.r.randint(2, 4), dens=.8, rowk='lgrer', colk='ffbbun')
    src = g.r.randrange(len(lp.rows)); rows = [src]
    for _ in range(g.r.randint(1, 3)):
        f = g.r.choice([1, 2, -1, -2, .5, -.5, 1]); l, u = g.rowkind('lgrer')
        rows.append(lp.row(l, u, {j: a * f for j, a in lp.rows[src][2].items()}))
    return lp, rows, []
def fam_parcol(g, name):
    lp = g.base(name, 'parcol', g.r.randint(2, 3), g.r.randint(2, 3), dens=.8, rowk='lgrle', colk='bbnupf')
    src = g.r.randrange(len(lp.cols)); cols = [src]
    for row in lp.rows[:2]:
        if src not in row[2]: row[2][src] = g.coef()
    if not isinstance(lp.cols[src][2], str): lp.cols[src][2] = g.r.choice([1, -1, 2, 0, -2])
    for _ in range(g.r.randint(1, 2)):
        f = g.r.choice([1, 2, -1, -2, .5, 1, -1]); l, u = g.colkind('bbnupbf'); same = g.r.random() < .65
        c = lp.cols[src][2] * f if same else g.r.randint(-2, 2)
        j = lp.col(l, u, c); cols.append(j)
        for row in lp.rows:
            if src in row[2]: row[2][j] = row[2][src] * f
    return lp, [], cols
def fam_mix(g, name):
    lp = g.base(name, 'mix', g.r.randint(2, 4), g.r.randint(3, 5), dens=g.r.choice([.4, .5, .7]))
    return lp, [], []

def fam_fill(g, name):
    """long chains of doubleton equalities that all keep the same few columns: fill-in, rows and
    columns of the matrix that outgrow their space"""
    r = g.r; n = r.randint(4, 7); lp = LP(name, 'fill')
    for _ in range(n):
        l, u = g.colkind('fffnub'); lp.col(l, u, g.cost())
    m = r.randint(6, 14); dens = r.choice([.3, .45, .6])
    for _ in range(m):
        js = [j for j in range(n) if r.random() < dens]
        while len(js) < 2: js = sorted(set(js + [r.randrange(n)]))
        l, u = g.rowkind('lgrlg'); lp.row(l, u, {j: g.coef() for j in js})
    base = r.randrange(n); rows = []
    others = [j for j in range(n) if j != base]; r.shuffle(others)
    for j in others[:r.randint(2, n - 1)]:
        v = r.randint(-2, 4); rows.append(lp.row(v, v, {base: g.coef(), j: g.coef()}))
        if r.random() < .3: base = j
    if r.random() < .5: shuffle_rows(g, lp)
    rows = [i for i in range(len(lp.rows)) if lp.rows[i][0] == lp.rows[i][1]]
    lp.set['max_shift'] = r.choice([0, 1, 2, 5, 10, 10, 30, 100])
    return lp, rows, []
def fam_big(g, name):
    """larger problems with several structures at once"""
    r = g.r; m, n = r.randint(7, 12), r.randint(7, 11)
    lp = g.base(name, 'big', m, n, dens=r.choice([.18, .25, .35]))
    for _ in range(r.randint(0, 2)):
        src = r.randrange(m); f = r.choice([1, 2, -1, -.5]); l, u = g.rowkind('lgrer')
        lp.row(l, u, {j: a * f for j, a in lp.rows[src][2].items()})
    for _ in range(r.randint(0, 2)):
        src = r.randrange(n); f = r.choice([1, 2, -1, .5]); l, u = g.colkind('bbnupf')
        j = lp.col(l, u, lp.cols[src][2] * f if r.random() < .7 else g.cost())
        for row in lp.rows:
            if src in row[2]: row[2][j] = row[2][src] * f
    for _ in range(r.randint(0, 2)):
        l, u = g.rowkind('lger'); lp.row(l, u, {r.randrange(n): g.coef()})
    for _ in range(r.randint(0, 2)):
        v = r.randint(-2, 4); a, b = r.sample(range(n), 2); lp.row(v, v, {a: g.coef(), b: g.coef()})
    if r.random() < .7: shuffle_rows(g, lp)
    return lp, [], []
def fam_edge(g, name):
    """degenerate shapes: no rows, one column, empty rows and columns, rows without sides"""
    r = g.r; k = r.randrange(6); lp = LP(name, 'edge')
    n = 1 if k == 0 else r.randint(1, 3)
    for _ in range(n):
        l, u = g.colkind('nbbfpu'); lp.col(l, u, g.cost())
    if k == 1: pass                                   # no constraint at all
    elif k == 2:                                      # only empty rows
        for _ in range(r.randint(1, 2)): lp.row(*g.rowkind('lgrz'), {})
    elif k == 3:                                      # rows without sides among others
        for _ in range(r.randint(2, 3)): lp.row(*g.rowkind('zzlge'), {j: g.coef() for j in range(n) if r.random() < .8})
    elif k == 4:                                      # fixed columns from the start
        for j in range(n):
            if r.random() < .6: v = r.randint(-2, 3); lp.cols[j][0] = lp.cols[j][1] = v
        for _ in range(r.randint(1, 3)): lp.row(*g.rowkind('lgerz'), {j: g.coef() for j in range(n) if r.random() < .8})
    else:                                             # one row
        lp.row(*g.rowkind('lgerr'), {j: g.coef() for j in range(n)})
    return lp, [], []
def fam_odd(g, name):
    """coefficients and data that are not dyadic or differ in size"""
    r = g.r; old = g.coef
    pal = r.choice([[1, -1, 3, -3, 1.5, 5], [1, -1, 0.1, -0.3, 2], [1, -1, 16, -16, 2], [1, -1, 2000, 1, -3000, 2], [1, .001, -1, .25, -2]])
    g.coef = lambda: r.choice(pal)
    lp, pr, pc = FAMS[r.choice(['ston_row', 'stoncol', 'dton', 'dton', 'activity', 'mix', 'parrow'])](g, name)
    g.coef = old; lp.family = "odd"
    if 2000 in pal: lp.set["primal_propagation"] = 0   # tolerances are multiplied by the coefficients
    if r.random() < .5:
        for row in lp.rows:
            if row[0] != row[1]:
                for q in (0, 1):
                    if isinstance(row[q], (int, float)) and r.random() < .5: row[q] += r.choice([.5, .25, .125])
        for c in lp.cols:
            for q in (0, 1):
                if isinstance(c[q], (int, float)) and r.random() < .3: c[q] += r.choice([-.5, .5]) * (1 if q else -1) if r.random() < .5 else 0
    return lp, list(pr), list(pc)
def fam_chain(g, name):
    """bound information travelling over several rounds: equalities, singletons and ranges linked to each other"""
    r = g.r; n = r.randint(4, 6); lp = LP(name, 'chain')
    for _ in range(n):
        l, u = g.colkind('nbbfup'); lp.col(l, u, g.cost())
    for j in range(n - 1):
        k = r.random()
        e = {j: g.coef(), j + 1: g.coef()}
        if r.random() < .35 and n > 2: e[r.randrange(n)] = g.coef()
        lp.row(*g.rowkind('lgere'), e)
    lp.row(*g.rowkind('lger'), {r.randrange(n): g.coef()})
    if r.random() < .5: lp.row(*g.rowkind('lgr'), {j: g.coef() for j in r.sample(range(n), 3)})
    shuffle_rows(g, lp)
    return lp, [], []
def fam_manypar(g, name):
    """groups of parallel rows and columns with several members"""
    r = g.r
    if r.random() < .5:
        n = r.randint(2, 4); lp = g.base(name, 'manypar', 1, n, dens=1, rowk='lgre', colk='ffbbun'); rows = [0]
        for _ in range(r.randint(3, 6)):
            src = r.choice(rows); f = r.choice([1, 1, 2, -1, -2, .5, -.5])
            rows.append(lp.row(*g.rowkind('lgrrlgre'), {j: a * f for j, a in lp.rows[src][2].items()}))
        if r.random() < .5: lp.row(*g.rowkind('lgr'), {j: g.coef() for j in range(n) if r.random() < .7} or {0: 1, 1: 1})
        return lp, rows, []
    m = r.randint(2, 3); lp = g.base(name, 'manypar', m, 2, dens=1, rowk='lgrle', colk='bbnupf'); cols = [0]
    for _ in range(r.randint(2, 4)):
        src = r.choice(cols); f = r.choice([1, 1, 2, -1, -2, .5]); same = r.random() < .75
        j = lp.col(*g.colkind('bbnupbf'), lp.cols[src][2] * f if same else r.randint(-2, 2)); cols.append(j)
        for row in lp.rows: row[2][j] = row[2][src] * f
    return lp, [], cols
def permute_cols(g, lp, pc=()):
    n = len(lp.cols); q = list(range(n)); g.r.shuffle(q)          # column j becomes q[j]
    cols = [None] * n
    for j in range(n): cols[q[j]] = lp.cols[j]
    lp.cols = cols
    for row in lp.rows: row[2] = {q[j]: a for j, a in row[2].items()}
    return [q[j] for j in pc]
def fam_huge(g, name):
    """several structures side by side, linked by a few rows, rows and columns shuffled"""
    r = g.r; lp = LP(name, 'huge'); target = r.choice([16, 20, 26, 34, 45, 60])
    kinds = ['ston_row', 'empty', 'dualfix', 'stoncol', 'dton', 'activity', 'parrow', 'parcol', 'chain', 'manypar', 'edge', 'fill']
    while len(lp.cols) < target:
        b = FAMS[r.choice(kinds)](g, name)[0]; off = len(lp.cols)
        lp.cols += b.cols; lp.rows += [[x, y, {j + off: a for j, a in e.items()}] for x, y, e in b.rows]
    n = len(lp.cols)
    for _ in range(r.randint(0, 4)):
        js = r.sample(range(n), r.choice([2, 3, 4, 6, 12])); lp.row(*g.rowkind('lgerz'), {j: g.coef() for j in js})
    shuffle_rows(g, lp); permute_cols(g, lp)
    return lp, [], []
def fam_large(g, name):
    """finite bounds and sides of a size that looks like infinity (not for the numerical properties)"""
    r = g.r; lp, pr, pc = FAMS[r.choice(['ston_row', 'stoncol', 'dton', 'activity', 'mix', 'parrow', 'parcol', 'chain', 'dualfix'])](g, name); lp.family = 'large'
    big = lambda: r.choice([1e6, 1e7, 1e8, 1e9, 1e10, 1e15, 1e20, 1e30])
    for k in range(r.randint(1, 4)):
        if r.random() < .6:
            c = r.choice(lp.cols); q = r.randrange(2); c[q] = big() * (1 if q else -1) if r.random() < .85 else c[q]
        elif lp.rows:
            row = r.choice(lp.rows)
            if row[0] == row[1]: row[0] = row[1] = big() * r.choice([1, -1])
            else: q = r.randrange(2); row[q] = big() * (1 if q else -1)
    for c in lp.cols:
        if r.random() < .1: c[2] = big() * r.choice([1, -1])
    return lp, pr, pc
def fam_scaled(g, name):
    """one of the other families with rows and columns scaled by powers of two and permuted"""
    r = g.r; lp, pr, pc = FAMS[r.choice(['ston_row', 'stoncol', 'stoncol', 'dton', 'dton', 'activity', 'mix', 'parrow', 'parcol', 'chain', 'dualfix', 'fill', 'manypar'])](g, name); lp.family = 'scaled'
    S = [.125, .25, .25, .5, 2, 4, 4, 8]; num = lambda t: isinstance(t, (int, float)); I = lambda v: int(v) if v == int(v) else v
    for j, c in enumerate(lp.cols):        # move the origin
        if r.random() < .5:
            s = r.choice([-6, -4, -3, -2, -1, 1, 2, 3, 4, 6])
            for q in (0, 1): c[q] = c[q] + s if num(c[q]) else c[q]
            for row in lp.rows:
                if j in row[2]:
                    for q in (0, 1): row[q] = I(row[q] + s * row[2][j]) if num(row[q]) else row[q]
    for row in lp.rows:
        if r.random() < .5:
            f = r.choice(S); row[2] = {j: I(a * f) for j, a in row[2].items()}
            for q in (0, 1): row[q] = I(row[q] * f) if num(row[q]) else row[q]
    for j, c in enumerate(lp.cols):
        if r.random() < .5:
            f = r.choice(S); c[2] = I(c[2] * f)
            for row in lp.rows:
                if j in row[2]: row[2][j] = I(row[2][j] * f)
            for q in (0, 1): c[q] = I(c[q] / f) if num(c[q]) else c[q]
    if r.random() < .6: pc = permute_cols(g, lp, pc)
    return lp, pr, pc
def fam_near(g, name):
    """data that almost coincide: nearly parallel rows and columns, nearly fixed columns, nearly equal sides,
    coefficients that nearly cancel, small coefficients (tolerances must not take them for equal or zero)"""
    r = g.r; lp, pr, pc = FAMS[r.choice(['ston_row', 'stoncol', 'dton', 'dton', 'activity', 'mix', 'parrow', 'parrow', 'parcol', 'parcol', 'chain', 'dualfix', 'manypar'])](g, name); lp.family = 'near'
    num = lambda t: isinstance(t, (int, float)); eps = lambda: r.choice([1, -1]) * 2.0 ** -r.randint(5, 8)
    ent = lambda: [(row[2], j) for row in lp.rows for j in row[2]]
    for _ in range(r.randint(1, 4)):
        k = r.randrange(9); e = eps()
        if k <= 1 and ent(): row, j = r.choice(ent()); row[j] = row[j] * (1 + e)
        elif k == 2:
            c = r.choice(lp.cols)
            if num(c[0]): c[1] = c[0] + abs(e)
            elif num(c[1]): c[0] = c[1] - abs(e)
        elif k == 3 and lp.rows:
            row = r.choice(lp.rows)
            if num(row[0]): row[1] = row[0] + abs(e)
            elif num(row[1]): row[0] = row[1] - abs(e)
        elif k == 4: c = r.choice(lp.cols); c[2] += e
        elif k == 5 and lp.rows: row = r.choice(lp.rows); d = [q for q in (0, 1) if num(row[q])]; q = r.choice(d) if d else 0; row[q] = row[q] + abs(e) * (1 if q else -1) if d else row[q]
        elif k >= 7 and len(lp.cols) > 1:                 # substitution that nearly cancels
            eq = [row for row in lp.rows if row[0] == row[1] and len(row[2]) == 2 and num(row[0])]; v = r.randint(-2, 4)
            if not eq or r.random() < .2:
                a, b = r.sample(range(len(lp.cols)), 2); eq.append(lp.rows[lp.row(v, v, {a: g.coef(), b: g.coef()})])
            d = r.choice(eq); (j, aj), (q, aq) = d[2].items(); t = r.choice([1, 2, -1]); e *= r.choice([1, 1, .5, .25])
            o = [row for row in lp.rows if row is not d]
            row = r.choice(o) if o else lp.rows[lp.row(*g.rowkind('lgr'), {x: g.coef() for x in range(len(lp.cols))})]
            if r.random() < .5: row[2].update({j: aj * t, q: aq * t + e})
            else: row[2].update({j: aj * t + e, q: aq * t})
        elif k == 6 and ent() and r.random() < .5: row, j = r.choice(ent()); row[j] = r.choice([1, -1]) * r.choice([1 / 16, 1 / 32, 1 / 64])
    return lp, pr, pc
def fam_tolc(g, name): return fam_tol(g, name, 'tolc')
def fam_tol(g, name, fam='tol'):
    """data that coincide up to the tolerances of the code: sides, bounds, costs and coefficients that
    differ by a symbolic multiple of 2^-21 (two of them are below 1e-6, three are above)"""
    r = g.r; lp, pr, pc = FAMS[r.choice(['ston_row', 'stoncol', 'dton', 'activity', 'mix', 'parrow', 'parrow', 'parcol', 'chain', 'dualfix', 'manypar', 'empty'])](g, name); lp.family = fam
    num = lambda t: isinstance(t, (int, float)); U = 2.0 ** -21
    if r.random() < .4: g.plant(lp, r.random() < .7)
    T = lambda v, lo=-4, hi=4: 'T:%r:%r:%d:%d' % (v, U * r.choice([1, 1, 1, -1, .5]), lo, hi)
    wide = lambda: [row for row in lp.rows if len(row[2]) > 1]
    def parrow():
        p = r.choice(wide()); q = {j: a for j, a in p[2].items() if num(a)}; d = [t for t in (0, 1) if num(p[t])]
        if len(q) < len(p[2]) or not d: return
        f = r.choice([1, 2, -1, .5, -2]); t = r.choice(d); v = T(p[t] * f); side = r.choice([0, 1, 2])
        if side == 2: lp.row(v, '=lhs%d' % len(lp.rows), {j: a * f for j, a in q.items()})
        else: lp.row(v if side == 0 else NINF, v if side else INF, {j: a * f for j, a in q.items()})
        if r.random() < .5: k = r.randrange(len(lp.rows) - 1); lp.rows[-1], lp.rows[k] = lp.rows[k], lp.rows[-1]
    for _ in range(r.randint(1, 3)):
        k = r.randrange(9 if fam == 'tolc' else 6)
        if k == 0:                                        # nearly fixed
            c = r.choice(lp.cols)
            if num(c[0]): c[1] = T(c[0], 0)
            elif num(c[1]): c[0] = T(c[1])
        elif k == 1 and wide():                           # nearly an equation
            row = r.choice(wide())
            if num(row[0]): row[1] = T(row[0], 0)
            elif num(row[1]): row[0] = T(row[1])
        elif k <= 3 and wide(): parrow()                  # nearly the same side as a parallel row
        elif k == 4:                                      # singleton row that nearly repeats a bound
            j = r.randrange(len(lp.cols)); d = [t for t in (0, 1) if num(lp.cols[j][t])]; f = r.choice([1, 2, -1])
            if d: v = T(lp.cols[j][r.choice(d)] * f); t = r.randrange(3); lp.row(v if t != 1 else NINF, v if t == 1 else INF if t == 0 else '=lhs%d' % len(lp.rows), {j: f})
        elif k == 5:                                      # side that is nearly the activity bound
            row = r.choice(lp.rows) if lp.rows else None
            if row and all(num(a) and num(lp.cols[j][0]) and num(lp.cols[j][1]) for j, a in row[2].items()) and row[2]:
                lo = sum(a * lp.cols[j][0 if a > 0 else 1] for j, a in row[2].items()); hi = sum(a * lp.cols[j][1 if a > 0 else 0] for j, a in row[2].items())
                if row[0] != row[1]:
                    if num(row[0]): row[0] = T(r.choice([lo, hi]))
                    elif num(row[1]): row[1] = T(r.choice([lo, hi]))
        elif k == 7 and r.random() < .5: c = r.choice(lp.cols); c[2] = T(c[2]) if num(c[2]) else c[2]
        elif k >= 6 and wide():                           # coefficient
            row = r.choice(wide()); j = r.choice(list(row[2])); row[2][j] = row[2][j] * (1 + r.choice([1, -1, 3]) * U) if num(row[2][j]) else row[2][j]
    # swapped rows: references follow their row
    for i, row in enumerate(lp.rows):
        if isinstance(row[1], str) and row[1].startswith('=lhs') and isinstance(row[0], str): row[1] = '=lhs%d' % i
    return lp, pr, pc
LARGE = {'large': fam_large}; TOL = {'tol': fam_tol, 'tolc': fam_tolc}
FAMS = {'ston_row': fam_ston_row, 'empty': fam_empty, 'dualfix': fam_dualfix, 'stoncol': fam_stoncol, 'dton': fam_dton,
        'activity': fam_act, 'parrow': fam_parrow, 'parcol': fam_parcol, 'mix': fam_mix,
        'fill': fam_fill, 'big': fam_big, 'edge': fam_edge, 'odd': fam_odd, 'chain': fam_chain, 'manypar': fam_manypar, 'huge': fam_huge, 'scaled': fam_scaled, 'near': fam_near}

def generate(fam, seed, count, k=(2, 4), what='bounds', only_own=0.25):
    own = {'dualfix': ['dual_fix'], 'stoncol': ['ston_cols'], 'dton': ['dton_eq'], 'activity': ['primal_propagation', 'finite_bound_tightening'],
           'parrow': ['parallel_rows'], 'parcol': ['parallel_cols'], 'fill': ['dton_eq'], 'manypar': ['parallel_rows', 'parallel_cols']}.get(fam, [])
    out = []
    for i in range(count):
        g = Gen('%s/%d/%d/%s' % (fam, seed, i, what))
        lp, pr, pc = (FAMS.get(fam) or LARGE.get(fam) or TOL[fam])(g, '%s_%s_%d_%d' % (fam, {'both': 'm', 'bounds': 'b', 'cost': 'c'}[what], seed, i))
        if g.r.random() < (0 if fam in TOL else .85 if fam in ('fill', 'big', 'chain') else .97 if fam == 'huge' else .4):
            g.plant(lp, fam not in ('dualfix', 'parcol') or g.r.random() < .3)
        g.symbolise(lp, g.r.randint(0, 2) if fam in TOL else g.r.randint(*k), what, set(pr), set(pc))
        x = g.r.random()
        if x < only_own:
            lp.set['all'] = 0
            for s in own: lp.set[s] = 1
        elif x < only_own + .15:
            for s in g.r.sample(REDS, 2):
                if s not in own: lp.set[s] = 0
        if fam == 'dton' or g.r.random() < .1: 
            if g.r.random() < .3: lp.set['max_shift'] = g.r.choice([0, 1, 2, 10])
        out.append(lp)
    return out

GADGETS = ['dual_fix', 'ston_cols', 'dton_eq', 'parallel_rows', 'parallel_cols', 'primal_propagation']
def gadget(kind, g, name):
    """an irreducible anchor of free columns, plus one structure that only the reduction `kind` removes"""
    r = g.r; lp = LP(name, 'gadget'); I = lambda a, b: 'I:%d:%d' % (a, b)
    for _ in range(3): lp.col(NINF, INF, r.choice([1, -1, 2]))
    A = [{0: 1, 1: 1, 2: -1}, {0: 1, 1: -1, 2: 2}, {0: -1, 1: 2, 2: 1}]
    rows = [lp.row(NINF, r.randint(-2, 5), e) for e in A]
    i = lambda: r.choice(rows)
    if kind == 'dual_fix':
        j = lp.col(I(-2, 3), r.choice([9, INF]), I(1, 3))
        for k in r.sample(rows, 2): lp.rows[k][2][j] = r.choice([1, 2, .5])
    elif kind == 'ston_cols':
        j = lp.col(NINF, INF, I(-2, 2)); lp.row(I(-3, 4), '=lhs3', {0: 1, 1: 3, 2: -2, j: r.choice([1, -1, 2])})
    elif kind == 'dton_eq':
        a, b = r.sample([0, 1, 2], 2); lp.row(I(-3, 4), '=lhs3', {a: 1, b: r.choice([-2, 1, 2, .5])})
    elif kind == 'parallel_rows':
        k = i(); f = r.choice([2, -1, -2, .5, 1])
        if f > 0: lp.row(NINF, I(-4, 8), {j: a * f for j, a in lp.rows[k][2].items()})
        else: lp.row(I(-40, -20), INF, {j: a * f for j, a in lp.rows[k][2].items()})
    elif kind == 'parallel_cols':
        k, l = r.sample(rows, 2); a, b = r.choice([1, 2]), -r.choice([1, 2, .5]); f = r.choice([1, 2, -1, .5]); c = r.choice([-1, 1, 2])
        p = lp.col(I(-3, 0), r.randint(2, 5), c); q = lp.col(r.randint(-2, 0), I(1, 6), c * f)
        lp.rows[k][2].update({p: a, q: a * f}); lp.rows[l][2].update({p: b, q: b * f})
    elif kind in ('primal_propagation', 'finite'):
        k, l, m = r.sample(rows, 3)
        u = lp.col(0, I(3, 4) if kind == 'primal_propagation' else 10, r.choice([1, -1])); v = lp.col(0, 4 if kind == 'primal_propagation' else 10, r.choice([2, -1]))
        lp.rows[k][2][u] = 1; lp.rows[l][2].update({u: -1, v: 2}); lp.rows[m][2][v] = -1
        lp.row(NINF, I(13, 20) if kind == 'primal_propagation' else I(2, 7), {u: 1, v: 2})
    return lp
def settings_specs(seed, per=4):
    """what the settings promise: a reduction whose switch is off is not carried out, one that is on is"""
    out = []
    def add(kind, i, sets, exp):
        g = Gen('set/%s/%d/%d' % (kind, seed, i)); lp = gadget(kind, g, 'set%d_%s_%d' % (len(out), kind, seed))
        lp.set.update(sets); lp.extra.append('expect ' + exp); out.append(lp)
    for i in range(per):
        for k in GADGETS:
            add(k, i, {'all': 1, k: 0}, 'unchanged'); add(k, i, {'all': 0, k: 1}, 'reduced'); add(k, i, {'all': 0}, 'identity'); add(k, i, {'all': 1}, 'reduced')
            add(k, i, {'all': 0, 'relax_bounds': 1}, 'unchanged'); add(k, i, {}, 'reduced')
            for o in GADGETS:
                if o != k: add(k, i, {'all': 0, o: 1}, 'unchanged')
        add('finite', i, {'all': 0, 'primal_propagation': 1}, 'samebounds'); add('finite', i, {'all': 0, 'primal_propagation': 1, 'finite_bound_tightening': 1}, 'tighter')
        add('finite', i, {'all': 0, 'finite_bound_tightening': 1}, 'identity'); add('finite', i, {'all': 1, 'relax_bounds': 0}, 'tighter')
        add('finite', i, {'all': 1, 'relax_bounds': 0, 'finite_bound_tightening': 0}, 'samebounds')
        for o in GADGETS[:-1] + ['relax_bounds']:
            add('finite', i, {'all': 0, 'primal_propagation': 1, o: 1}, 'nottighter'); add('finite', i, {'all': 1, 'finite_bound_tightening': 0, o: 0}, 'nottighter')
            add('finite', i, {'all': 1, 'primal_propagation': 0, o: 0}, 'nottighter')
            for o2 in GADGETS[:-1] + ['relax_bounds']:
                if o < o2: add('finite', i, {'all': 0, 'primal_propagation': 1, o: 1, o2: 1}, 'nottighter')
    return out
FIXED = '''
spec nocols_0 fixed 2 0
row 0 -inf 3
row 1 I:-2:2 5
spec nocols_1 fixed 1 0
row 0 I:-2:2 =lhs0
spec nothing fixed 0 0
spec cancel_0 fixed 3 3
row 0 3 3 0:1 1:1
row 1 I:2:3 inf 0:1 1:1.000000476837158203125 2:1
row 2 -inf 4 0:1 1:-1 2:2
col 0 0 4 1
col 1 0 4 2
col 2 0 4 1
set all 0
set dton_eq 1
'''
class Text:
    def __init__(self, t): self.name, self.t = t.split()[0], t.split(' ', 1)[1]
    def text(self): return 'spec ' + self.name + ' ' + self.t
def fixed():
    return [Text(t) for t in FIXED.strip().split('spec ')[1:]]
def curated(kind, seed=1):
    return settings_specs(seed) if kind == 'settings' else []

if __name__ == '__main__':
    fam, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    fams = list(FAMS) if fam == 'all' else [fam]
    for f in fams:
        for lp in generate(f, seed, count, what=sys.argv[4] if len(sys.argv) > 4 else 'bounds'):
            sys.stdout.write(lp.text())
