#!/usr/bin/env python3
"""Rewrite LLVM IR of the code under test so that every operation on doubles is
carried out by the symbolic runtime (rt.cpp), and every call to the environment
(threads, clock, allocator, console) goes to a stub of the harness.

Reads IR on stdin, writes IR on stdout.  Anything on doubles that is not
understood makes the rewrite fail (exit 3) rather than be executed natively."""
import re, sys

PRED = {p: i for i, p in enumerate(
    "false oeq ogt oge olt ole one ord uno ueq ugt uge ult ule une true".split())}
OPER = r'(?:%[-\w.$"]+|-?[0-9.]+e[+-]?[0-9]+|0x[0-9A-Fa-f]+|undef|poison|-?[0-9.]+)'
FM = r'(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*'
RES = r'^(\s*)(%[-\w.$"]+) = '

DECLS = {
    'sym_fadd': 'declare double @sym_fadd(double, double)',
    'sym_fsub': 'declare double @sym_fsub(double, double)',
    'sym_fmul': 'declare double @sym_fmul(double, double)',
    'sym_fdiv': 'declare double @sym_fdiv(double, double)',
    'sym_frem': 'declare double @sym_frem(double, double)',
    'sym_fneg': 'declare double @sym_fneg(double)',
    'sym_fabs': 'declare double @sym_fabs(double)',
    'sym_round': 'declare double @sym_round(double)',
    'sym_floor': 'declare double @sym_floor(double)',
    'sym_ceil': 'declare double @sym_ceil(double)',
    'sym_trunc': 'declare double @sym_trunc(double)',
    'sym_sqrt': 'declare double @sym_sqrt(double)',
    'sym_fmax': 'declare double @sym_fmax(double, double)',
    'sym_fmin': 'declare double @sym_fmin(double, double)',
    'sym_fma': 'declare double @sym_fma(double, double, double)',
    'sym_copysign': 'declare double @sym_copysign(double, double)',
    'sym_pow': 'declare double @sym_pow(double, double)',
    'sym_log': 'declare double @sym_log(double)',
    'sym_exp': 'declare double @sym_exp(double)',
    'sym_fcmp': 'declare zeroext i1 @sym_fcmp(i32, double, double)',
    'sym_fpclass': 'declare zeroext i1 @sym_fpclass(double, i32)',
    'sym_bits': 'declare i64 @sym_bits(double)',
    'sym_tosi': 'declare i64 @sym_tosi(double, i32)',
    'sym_lround': 'declare i64 @sym_lround(double)',
    'sym_toui': 'declare i64 @sym_toui(double, i32)',
    'sym_si2d': 'declare double @sym_si2d(i64)',
    'sym_ui2d': 'declare double @sym_ui2d(i64)',
}
INTR = {'fabs': 'sym_fabs', 'round': 'sym_round', 'floor': 'sym_floor', 'ceil': 'sym_ceil',
        'trunc': 'sym_trunc', 'sqrt': 'sym_sqrt', 'maxnum': 'sym_fmax', 'minnum': 'sym_fmin',
        'fma': 'sym_fma', 'fmuladd': 'sym_fma', 'copysign': 'sym_copysign', 'rint': 'sym_round',
        'nearbyint': 'sym_round', 'roundeven': 'sym_round', 'pow': 'sym_pow', 'log': 'sym_log', 'exp': 'sym_exp'}
LIBM = {'fabs': 'sym_fabs', 'round': 'sym_round', 'floor': 'sym_floor', 'ceil': 'sym_ceil',
        'trunc': 'sym_trunc', 'sqrt': 'sym_sqrt', 'fmax': 'sym_fmax', 'fmin': 'sym_fmin',
        'fma': 'sym_fma', 'copysign': 'sym_copysign', 'rint': 'sym_round', 'nearbyint': 'sym_round',
        'pow': 'sym_pow', 'log': 'sym_log', 'exp': 'sym_exp', 'fmod': 'sym_frem'}
# environment: renamed to env_<name>, implemented in env part of the runtime
ENV = ['pthread_create', 'pthread_join', 'clock_gettime', 'malloc', 'calloc', 'realloc', 'free',
       'printf', 'puts', 'putchar', 'fprintf', 'fwrite', 'fputs', 'fputc', 'exit', 'abort',
       '__assert_fail', 'strdup', 'time', 'clock', 'gettimeofday', 'aligned_alloc', 'fflush',
       'vprintf', 'rand', 'srand', 'qsort']

class Bad(Exception):
    pass

def rewrite(text):
    used = set()
    nops = 0
    out = []
    for line in text.split('\n'):
        s = line.strip()
        if s.startswith(';') or s.startswith('!') or 'double' not in s:
            out.append(line); continue
        m = re.match(RES + r'(fadd|fsub|fmul|fdiv|frem) ' + FM + r'double (' + OPER + '), (' + OPER + ')', line)
        if m:
            f = 'sym_' + m.group(3); used.add(f); nops += 1
            out.append(f'{m.group(1)}{m.group(2)} = call double @{f}(double {m.group(4)}, double {m.group(5)})'); continue
        m = re.match(RES + r'fneg ' + FM + r'double (' + OPER + ')', line)
        if m:
            used.add('sym_fneg'); nops += 1
            out.append(f'{m.group(1)}{m.group(2)} = call double @sym_fneg(double {m.group(3)})'); continue
        m = re.match(RES + r'fcmp ' + FM + r'(\w+) double (' + OPER + '), (' + OPER + ')', line)
        if m:
            used.add('sym_fcmp'); nops += 1
            out.append(f'{m.group(1)}{m.group(2)} = call zeroext i1 @sym_fcmp(i32 {PRED[m.group(3)]}, double {m.group(4)}, double {m.group(5)})'); continue
        m = re.match(RES + r'(fptosi|fptoui) double (' + OPER + r') to (i\d+)', line)
        if m:
            f = 'sym_tosi' if m.group(3) == 'fptosi' else 'sym_toui'
            used.add(f); nops += 1
            w = int(m.group(5)[1:]); tmp = m.group(2) + '.symtmp' if not m.group(2)[1:].isdigit() else '%symtmp' + m.group(2)[1:]
            if w == 64:
                out.append(f'{m.group(1)}{m.group(2)} = call i64 @{f}(double {m.group(4)}, i32 64)')
            else:
                out.append(f'{m.group(1)}{tmp} = call i64 @{f}(double {m.group(4)}, i32 {w})')
                out.append(f'{m.group(1)}{m.group(2)} = trunc i64 {tmp} to i{w}')
            continue
        m = re.match(RES + r'(sitofp|uitofp) (?:nneg )?(i\d+) (%[-\w.$"]+|-?\d+|true|false) to double', line)
        if m:
            f = 'sym_si2d' if m.group(3) == 'sitofp' else 'sym_ui2d'
            used.add(f); w = int(m.group(4)[1:])
            if w == 64:
                out.append(f'{m.group(1)}{m.group(2)} = call double @{f}(i64 {m.group(5)})')
            else:
                tmp = '%symtmp' + re.sub(r'\W', '_', m.group(2)[1:])
                ext = 'sext' if f == 'sym_si2d' else 'zext'
                out.append(f'{m.group(1)}{tmp} = {ext} {m.group(4)} {m.group(5)} to i64')
                out.append(f'{m.group(1)}{m.group(2)} = call double @{f}(i64 {tmp})')
            continue
        m = re.match(RES + r'bitcast double (' + OPER + r') to i64', line)
        if m:
            used.add('sym_bits')
            out.append(f'{m.group(1)}{m.group(2)} = call i64 @sym_bits(double {m.group(3)})'); continue
        if re.search(r'\bfloat\b|x86_fp80|<\d+ x double>', s) and not s.startswith('@'):
            raise Bad('unsupported type: ' + s)
        m = re.search(r'@llvm\.is\.fpclass\.f64\(double (?:noundef )?(' + OPER + r'), i32 (\d+)\)', line)
        if m and '= call' in line:
            used.add('sym_fpclass'); res = re.match(RES, line)
            out.append(f'{res.group(1)}{res.group(2)} = call zeroext i1 @sym_fpclass(double {m.group(1)}, i32 {m.group(2)})'); continue
        m = re.search(r'i64 @(?:llvm\.)?(?:l?lround|l?lrint)(?:\.i64\.f64)?\(', line)
        if m:
            if s.startswith('declare'): continue
            used.add('sym_lround'); nops += 1
            line = line.replace(m.group(0), 'i64 @sym_lround(')
            out.append(line); continue
        m = re.search(r'@llvm\.(\w+)\.f64\(', line)
        if m:
            if s.startswith('declare'):
                continue
            if m.group(1) not in INTR:
                raise Bad('unsupported intrinsic: ' + s)
            f = INTR[m.group(1)]; used.add(f); nops += 1
            line = line.replace(f'@llvm.{m.group(1)}.f64(', f'@{f}(')
            line = re.sub(r'call ' + FM, 'call ', line)
            out.append(line); continue
        m = re.search(r'double @(?:nextafter|frexp|ldexp|scalbn|scalbln|modf|hypot|cbrt|log2|log10|exp2|remainder|fdim|logb|ilogb)\(', line)
        if m and not s.startswith('declare'):
            raise Bad('unsupported function: ' + s)
        m = re.search(r'double @(\w+)\(', line)
        if m and m.group(1) in LIBM:
            if s.startswith('declare'):
                continue
            f = LIBM[m.group(1)]; used.add(f); nops += 1
            out.append(line.replace('@' + m.group(1) + '(', '@' + f + '(')); continue
        if re.match(r'\s*%[-\w.$"]+ = (fptrunc|fpext|sitofp|uitofp|fptosi|fptoui|fcmp|fneg|fadd|fsub|fmul|fdiv|bitcast|freeze)\b', line):
            raise Bad('unsupported instruction: ' + s)
        out.append(line)
    text = '\n'.join(out)
    names = {}
    def ent(m):
        fn = m.group(2); g = '@.envfn.%d' % len(names); names[g] = fn
        return m.group(1) + '\n  call void @env_enter(ptr %s)' % g
    text = re.sub(r'(?m)^(define [^@]*@([\w.]+)\(.*\{)$', ent, text)
    for g, fn in names.items():
        text += '\n%s = private constant [%d x i8] c"%s\\00"' % (g, len(fn) + 1, fn)
    if names: text += '\ndeclare void @env_enter(ptr)\n'
    for e in ENV:
        text = re.sub(r'@' + e + r'\b(?=\()', '@env_' + e, text)
        # function pointers to environment functions
        text = re.sub(r'(ptr (?:noundef )?)@' + e + r'\b', r'\1@env_' + e, text)
    # the attribute "builtin"/allockind would let the optimiser drop allocations
    text = re.sub(r'\ballockind\("[^"]*"\)|\ballocsize\([^)]*\)|"alloc-family"="[^"]*"', '', text)
    text = re.sub(r'\bmemory\([^)]*\)', '', text)
    text = re.sub(r'\bnounwind\b', '', text)
    text = re.sub(r'(?m)^(attributes #\d+ = \{)\s*\}', r'\1 "verif" }', text)
    have = set(re.findall(r'^declare .*?@(\w+)\(', text, re.M))
    text += '\n' + '\n'.join(DECLS[f] for f in sorted(used) if f not in have) + '\n'
    return text, nops

if __name__ == '__main__':
    try:
        t, n = rewrite(sys.stdin.read())
    except Bad as e:
        sys.stderr.write('rewrite: %s\n' % e); sys.exit(3)
    sys.stdout.write(t)
