"""Which LP skeletons a check explores."""
import specs
ASSUMPTIONS = [
    'doubles of the code are exact rationals/polynomials in the symbolic run (IEEE rounding is not modelled); each path is compared with a native run on a model of the path',
    'allocator, threads, clock and console are stand-ins; the allocator hands out filled, never zeroed memory unless calloc is used',
    'coefficients of a skeleton are concrete; sides, bounds and costs marked I or T are symbolic integers, in the families tol and tolc symbolic multiples of 2^-21 added to concrete data; solutions of the reduced problem are symbolic reals',
    'the family tolc (coefficients and costs that are parallel up to the tolerances) is used for the properties whose verdict does not depend on values; there an exact judgement of values would be wrong, because a multiplier may magnify what the tolerance allows',
]
WEIGHT = {'scaled': 3, 'huge': 2, 'tol': 2, 'stoncol': 1.5, 'dton': 1.5, 'parcol': 1.3}  # families that reach most code per second
def specs_for(pid, cfg, tier, seed):
    n = cfg.get('per_family', 80) if tier != 'thorough' else cfg.get('thorough_per_family', 400)
    out = []
    for what in cfg.get('what', ['both']):
        per = [specs.generate(f, seed, round(n * WEIGHT.get(f, 1)), what=what) for f in list(specs.FAMS) + ['tol'] + (['tolc'] if cfg.get('tolc') else []) + (list(specs.LARGE) if cfg.get('large') else [])]
        # interleaved, so that a run that is cut has seen all families
        for i in range(n):
            for p in per:
                for k in range(i * len(p) // n, (i + 1) * len(p) // n):
                    # every other skeleton runs with the hooks on (little spare space, small vectors)
                    if k % 2: p[k].name += '_s'
                    out.append(p[k])
    out = specs.fixed() + out
    if cfg.get('curated'):
        out = specs.curated(cfg['curated'], seed) + out
    return out
