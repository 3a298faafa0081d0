#!/usr/bin/env python3
"""Build the symbolic harness from /repo's current sources into a work directory."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rewrite
REPO = os.environ.get('PSLP_REPO', '/repo')
INC = ['-I%s/include' % REPO] + ['-I%s/include/%s' % (REPO, d) for d in ('PSLP', 'core', 'data_structures', 'explorers')]
CDEF = ['-std=c99', '-D_POSIX_C_SOURCE=200809L', '-DPSLP_VERSION="verif"', '-w']

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + p.stderr.decode(errors='replace')[-3000:])
    return p.stdout

def sources(debug):
    fs = sorted(glob.glob(REPO + '/src/core/*.c') + glob.glob(REPO + '/src/explorers/*.c'))
    return fs if debug else [f for f in fs if os.path.basename(f) != 'Debugger.c']

def ndebug(debug):
    return [] if debug else ['-DNDEBUG']

API = ['default_settings', 'free_settings', 'set_settings_true', 'set_settings_false', 'new_presolver', 'free_presolver', 'run_presolver', 'postsolve']

SMALL = ['-DPSLP_VERIF_SMALL']
def sym_obj(src, out, variant, info, small=[]):
    debug = variant == 'debug'
    ll = run(['clang', '-S', '-emit-llvm', *CDEF, *small, *ndebug(debug), '-O0', '-Xclang', '-disable-O0-optnone', '-fno-inline', '-ffp-contract=off', '-fno-vectorize', *INC, '-o', '-', src])
    ll = run(['opt', '-S', '-passes=mem2reg'], input=ll)
    text, n = rewrite.rewrite(ll.decode())
    san = []
    if variant == 'asan':
        import re
        text = re.sub(r'(?m)^(define [^{]*?\)(?: (?:local_unnamed_addr|unnamed_addr))?)( #\d+)', r'\1 sanitize_address\2', text)
        san = ['-fsanitize=address']
    if variant == 'race':
        import re
        text = re.sub(r'(?m)^(define [^{]*?\)(?: (?:local_unnamed_addr|unnamed_addr))?)( #\d+)', r'\1 sanitize_thread\2', text)
        san = ['-fsanitize=thread']
    info.append((os.path.basename(src), n, len(text)))
    with open(out + '.ll', 'w') as f:
        f.write(text)
    run(['clang', '-O1', *san, '-c', '-Wno-override-module', '-o', out, out + '.ll'])

ENVMAP = rewrite.ENV
def nat_obj(src, out, variant, small=[]):
    debug = variant == 'debug'
    san = ['-fsanitize=address', '-g1'] if variant == 'asan' else []
    run(['gcc', '-c', *CDEF, *small, *ndebug(debug), '-O2', '-U_FORTIFY_SOURCE', *san, *INC, '-o', out, src])

def build(work, variant='rel', small=False, base=None):
    """variant: rel | debug | asan | race; small: with the hooks PSLP_VERIF_SMALL on;
    base: work directory of another build of the variant; returns path of the harness and info"""
    os.makedirs(work, exist_ok=True)
    info = []; sm = SMALL if small else []
    srcs = sources(variant == 'debug')
    cxxsan = ['-fsanitize=address'] if variant == 'asan' else []
    cxx = 'clang++'
    with ThreadPoolExecutor(8) as ex:
        jobs = []
        rtsrc = HERE + '/rt.cpp'
        if not base: jobs.append(ex.submit(run, ['g++', '-O2', '-std=c++17', '-w', '-c', rtsrc, '-o', work + '/rt.o']))
        if not base: jobs.append(ex.submit(run, ['g++', '-O1', '-std=c++17', '-w', '-DVARIANT_' + variant.upper(), *INC, '-c', HERE + '/harness.cpp', '-o', work + '/harness.o']))
        syms, nats = [], []
        for s in srcs:
            b = os.path.basename(s)[:-2]
            o = work + '/sym_' + b + '.o'; syms.append(o)
            jobs.append(ex.submit(sym_obj, s, o, variant, info, sm))
            o = work + '/nat_' + b + '.o'; nats.append(o)
            jobs.append(ex.submit(nat_obj, s, o, 'rel' if variant == 'race' else variant, sm))
        for j in jobs:
            j.result()
    # native build: merge, rename the environment, prefix the rest
    nat = work + '/nat.o'
    run(['ld', '-r', '-o', nat, *nats])
    syms_def = run(['nm', '--defined-only', '-g', nat]).decode().split('\n')
    m = work + '/redef.txt'
    with open(m, 'w') as f:
        for l in syms_def:
            p = l.split()
            if len(p) == 3 and not p[2].startswith('__asan') and not p[2].startswith('__odr_asan'):
                f.write('%s nat_%s\n' % (p[2], p[2]))
        for e in ENVMAP:
            f.write('%s env_%s\n' % (e, e))
    run(['objcopy', '--redefine-syms=' + m, nat])
    exe = work + '/harness'
    run([cxx if variant == 'asan' else 'g++', *cxxsan, '-o', exe, (base or work) + '/harness.o', (base or work) + '/rt.o', *syms, nat, '-lz3', '-lgmpxx', '-lgmp', '-lpthread', '-lm'])
    return exe, info

if __name__ == '__main__':
    exe, info = build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'rel', len(sys.argv) > 3)
    print(exe, sum(i[1] for i in info), 'fp operations in', len(info), 'files')
