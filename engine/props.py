"""The properties and how each one is explored."""
B = 'LPs of at most 19 rows x 13 columns, in the family huge up to about 100 rows x 66 columns; 2-4 symbolic sides, bounds or costs ranging over integers in [-5,8], in the families tol and tolc up to 9 sides and bounds (tolc also costs and coefficients) ranging over multiples of 2^-21 around FEAS_TOL; reduced solutions over all reals; at most 60 paths or 3 s per skeleton (quick), 2000 paths or 20 s (thorough); all presolve rounds the code performs'
def P(title, variant, props, **kw):
    d = dict(title=title, variant=variant, props=props, bounds=B); d.update(kw); return d
PROPS = {
 'P01': P('primal recovery', 'rel', ['primal'], what=['both', 'bounds']),
 'P02': P('objective', 'rel', ['obj'], what=['both', 'cost']),
 'P03': P('optimality', 'rel', ['opt'], what=['bounds'], per_family=100),
 'P04': P('nothing lost', 'rel', ['lost'], what=['both', 'bounds']),
 'P05': P('dual stationarity', 'rel', ['station'], what=['both', 'cost']),
 'P06': P('dual complementarity', 'rel', ['kkt'], what=['both', 'bounds']),
 'P07': P('INFEASIBLE is sound', 'rel', ['infeas'], what=['both', 'bounds']),
 'P08': P('UNBNDORINFEAS is sound', 'rel', ['unbnd'], what=['both', 'cost']),
 'P09': P('well-formed result', 'rel', ['wf'], what=['both', 'bounds'], tolc=True),
 'P10': P('memory safety', 'asan', ['mem'], what=['both'], per_family=50, large=True, tolc=True),
 'P11': P('inputs are copied', 'rel', ['inputs'], what=['both'], per_family=80, large=True, tolc=True),
 'P12': P('settings', 'rel', ['settings'], what=['both'], per_family=80, curated='settings', large=True, tolc=True),
 'P13': P('determinism', 'rel', ['det'], what=['both'], per_family=80, large=True, tolc=True),
 'P14': P('postsolve is repeatable', 'rel', ['post'], what=['both'], per_family=80, large=True, tolc=True),
 'P15': P('threads', 'race', ['thread'], what=['both'], per_family=80, large=True, tolc=True),
 'P16': P('allocation failure', 'asan', ['alloc'], what=['both'], per_family=30, max_paths=400, large=True, tolc=True),
 'P17': P('time limit', 'rel', ['time'], what=['both'], per_family=45, max_paths=150),
 'P18': P('termination', 'rel', ['term'], what=['both'], per_family=100, large=True, tolc=True),
 'P19': P('internal assertions', 'debug', ['dbg'], what=['both', 'bounds'], tolc=True),
 'P20': P('trivial reductions exhaustive', 'rel', ['triv'], what=['both', 'bounds'], tolc=True),
 'P22': P('independence', 'race', ['indep'], what=['both'], per_family=40, large=True, tolc=True),
 'P21': P('status and statistics', 'rel', ['status'], what=['both', 'bounds'], large=True, tolc=True),
}
