"""Compiles the code under verification (always /repo's current sources) and a harness to one
LLVM module, plus the native replay binary of the same harness."""
import os, subprocess, hashlib, re, sys, json, concurrent.futures as cf

REPO = os.environ.get('SRL_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
CXX = LLVM + 'clang++'
CC = LLVM + 'clang'
COMMON = ['-DNDEBUG', '-gline-tables-only', '-fwrapv', '-I' + REPO + '/include', '-I' + REPO, '-I' + VERIF + '/harness', '-w']
CXXF = ['-std=c++17', '-fno-access-control', '-include', VERIF + '/harness/prelude.h'] + COMMON
BC = ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
      '-ffp-contract=off', '-fno-stack-protector',
      '-fsanitize=float-cast-overflow,shift-exponent,integer-divide-by-zero', '-fsanitize-trap=all']

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    return r.stdout

def lib_sources():
    out = []
    for d in ('src/lib', 'src/lib/fpconv'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.cpp') or f.endswith('.c'):
                out.append(os.path.join(d, f))
    return out

def included_sources(harness):
    """library .cpp files the harness includes directly (to reach file-local functions)"""
    txt = open(harness).read()
    return set(re.findall(r'#include\s+"(src/lib/[^"]+)"', txt))

def compile_bc(src, out, extra=()):
    if src.endswith('.c'):
        run([CC, '-std=gnu99'] + COMMON + BC + list(extra) + [src, '-o', out])
    else:
        run([CXX] + CXXF + BC + list(extra) + [src, '-o', out])

def build_lib(work):
    """bitcode of every library source, in parallel"""
    os.makedirs(work, exist_ok=True)
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {}
        for s in lib_sources():
            o = os.path.join(work, s.replace('/', '_') + '.bc')
            fs[ex.submit(compile_bc, os.path.join(REPO, s), o)] = (s, o)
        for f in cf.as_completed(fs):
            s, o = fs[f]
            f.result(); res[s] = o
    return res

PASSES = ('globaldce,function(lower-expect,sroa,early-cse,simplifycfg),cgscc(inline),'
          'function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,dce),globaldce')

def noinline_flags(bc, pats):
    if not pats: return []
    names = [l.split()[-1] for l in run([LLVM + 'llvm-nm', '--defined-only', bc]).splitlines() if l.split()[-2:-1] and l.split()[-2] in 'TtWVwuD']
    dem = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    fl = []
    for n, d in zip(names, dem):
        if any(re.search(p, d) for p in pats):
            fl.append('-force-attribute=%s:noinline' % n)
    return fl

def link_module(work, harness_bc, libs, entries, out, noinline=()):
    lk = out + '.lk.bc'
    # harness plus whole library; unused code is dropped by internalize+globaldce
    run([LLVM + 'llvm-link', harness_bc] + libs + ['-o', lk])
    fl = noinline_flags(lk, noinline)
    api = ','.join(entries)
    run([LLVM + 'opt', '-passes=' + ('forceattrs,' if fl else '') + 'internalize,' + PASSES, '-internalize-public-api-list=' + api] + fl + [lk, '-o', out])
    os.unlink(lk)
