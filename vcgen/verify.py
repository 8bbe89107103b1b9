"""Compile a harness against /repo's current sources and decide its proofs."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', '/var/tmp/vp_build')
import llir
import models
import solve
import terms
import sym
from terms import *

CLANG = 'clang++-18'


def overlay():
    d = os.path.join(BUILD, 'overlay')
    p = os.path.join(d, 'bits', 'c++config.h')
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        src = subprocess.run([CLANG, '-xc++', '-E', '-'], input='#include <bits/c++config.h>\n', capture_output=True,
                             text=True).stdout
        m = re.search(r'^# 1 "([^"]*bits/c\+\+config\.h)"', src, re.M)
        t = open(m.group(1)).read()
        t = t.replace('# define _GLIBCXX_EXTERN_TEMPLATE 1', '# define _GLIBCXX_EXTERN_TEMPLATE 0')
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(t)
        os.rename(tmp, p)
    return d


def flags(extra=()):
    return [x.replace('@V', VERIF) for x in extra if not x.startswith('@stub:')] + ['-std=gnu++17', '-include', 'cstdint', '-include', 'limits', '-I' + os.path.join(VERIF, 'harness', 'shim'),
            '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
            '-I' + os.path.join(VERIF, 'harness'), '-w']


class CompileError(Exception):
    pass


UB = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return'


# keep loops in their source shape
SHAPE = ['-mllvm', '-rotation-max-header-size=0', '-mllvm', '-enable-load-pre=false', '-mllvm', '-enable-pre=false']


def compile_ll(src, out, extra=(), opt='-O1', ub=False):
    cmd = [CLANG, '-S', '-emit-llvm', opt, '-gline-tables-only', '-fno-pie', '-fno-vectorize', *SHAPE, '-fno-slp-vectorize',
           '-fno-stack-protector', '-fno-threadsafe-statics', '-fno-builtin-printf', '-isystem', overlay()] + flags(extra) + ['-o', out, src]
    if ub:
        cmd += [UB, '-fsanitize-trap=all']
    stubs = [x[6:].split('=') for x in extra if x.startswith('@stub:')]
    if stubs:
        cmd[cmd.index(src):cmd.index(src)] = ['-Xclang', '-disable-llvm-passes']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-4000:])
    if stubs:
        use_contracts(out, stubs, opt)
    return ' '.join(cmd)


def use_contracts(path, stubs, opt):
    """calls of a function under contract go to the contract (a harness function) instead of the body"""
    t = open(path).read()
    for fn, to in stubs:
        names = set(re.findall(r'^define [^@]*@"?(_Z[\w.]*\d%s[\w.]*|%s)"?\(' % (fn, fn), t, re.M))
        if not names:
            raise CompileError(f'no function {fn} in /repo to replace by its contract')
        for n in names:
            t = re.sub(r'(?m)^(\s+(?:%\S+ = )?(?:tail |musttail |notail )?(?:call|invoke) [^@\n]*)@' + re.escape(n) + r'\(', r'\1@' + to + '(', t)
    open(path, 'w').write(t)
    r = subprocess.run(['opt', '-S', f'-passes=default<{opt[1:]}>', *[x for x in SHAPE if x != '-mllvm'], '-vectorize-loops=false', '-vectorize-slp=false',
                        path, '-o', path], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-4000:])


def demangle(names):
    r = subprocess.run(['c++filt', '-i'], input='\n'.join(n[1:] for n in names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def load(path):
    mod = llir.Module().parse(open(path).read())
    mod.path = path
    return mod


def reducible(mod):
    """the module with loops of several entries made reducible (LLVM's fix-irreducible)"""
    if not hasattr(mod, 'red'):
        out = f'{mod.path}.{os.getpid()}.red'
        subprocess.run(['opt', '-S', '-passes=function(lowerswitch,fix-irreducible)', mod.path, '-o', out], check=True, capture_output=True)
        mod.red = load(out)
        os.unlink(out)
    return mod.red


class Result:
    pass


def run_proof(mod, dem, name, opts):
    if hasattr(mod, 'red'):
        mod = mod.red
    try:
        return run_proof_(mod, dem, name, opts)
    except Exception as ex:
        if 'irreducible' not in str(ex) or hasattr(mod, 'is_red'):
            raise
    mod = reducible(mod)
    mod.is_red = True
    return run_proof_(mod, dem, name, opts)


def run_proof_(mod, dem, name, opts):
    """symbolic execution + discharge of one proof"""
    t0 = time.time()
    import mem
    mem.clear_cache()
    terms.LIN = bool(opts.get('lin'))
    e = sym.Engine(mod, opts)
    e.demangled = dem
    R = Result()
    R.name = name
    R.error = None
    R.engine = e
    try:
        for pre in opts.get('init', []):
            pass
        r, x = e.run('@proof_' + name)
        if x is not None:
            e.curfn = '@proof_' + name
            e.ob('exception', 'no exception escapes the contract', x, False)
    except sym.Unsupported as ex:
        R.error = 'Unsupported: ' + str(ex)
    except RecursionError as ex:
        R.error = 'RecursionError'
    except (KeyError, TypeError, IndexError, AttributeError, AssertionError, ValueError) as ex:
        import traceback
        R.error = 'engine: ' + traceback.format_exc()[-1500:]
    R.t_sym = time.time() - t0
    t1 = time.time()
    szs = [sz for _, sz, _ in e.bufs if not is_c(sz)]
    prefer = [[ule(z, k, 64) for z in szs] for k in (16, 64, 4096)] if szs else []
    solve.discharge(e.obs, e.global_axioms, timeout=opts.get('timeout', 60), workers=opts.get('workers', 8), prefer=prefer)
    R.t_solve = time.time() - t1
    # reachability of covers
    R.covers = {}
    for c, pcs in e.covers.items():
        R.covers[c] = 'unreachable'
        for pc in pcs:
            if not pc:
                R.covers[c] = 'reachable'
                break
        else:
            def w(a):
                return solve.solve_one([(a, False)], e.global_axioms, 40)
            for i, r in solve.pmap(w, pcs[:4], 4, 60):
                if r[0] == 'sat':
                    R.covers[c] = 'reachable'
                elif r[0] != 'unsat' and R.covers[c] != 'reachable':
                    R.covers[c] = 'unknown'
    R.obs = e.obs
    return R


def parts(opts):
    """case analysis: option "split": {"input": [lo, hi]} decides every value of the
    named range inputs separately"""
    sp = opts.get('split')
    if not sp:
        return [opts]
    import itertools
    out = []
    for vals in itertools.product(*[range(lo, hi + 1) for lo, hi in sp.values()]):
        o = dict(opts)
        o['fix'] = dict(zip(sp, vals))
        out.append(o)
    return out


def model_inputs(e, model):
    """replay file text from a model"""
    lines = []
    vs = model['vars']
    for nm, w, v in e.inputs:
        if is_c(v):
            lines.append(f'{nm} {int(v).to_bytes(8, "little").hex()}')
            continue
        x = vs.get('in.' + nm, 0)
        if isinstance(x, bool):
            x = int(x)
        if v.p[1] is not None:
            x = min(max(x, v.p[1][0]), v.p[1][1])
        lines.append(f'{nm} {x.to_bytes(8, "little").hex()}')
    sizes = {}
    for nm, sz, arr in e.bufs:
        if is_c(sz):
            n = sz
        else:
            n = evaluate([sz], vs_defaults(sz, vs), {k: (d, 0) for k, d in model['arrays'].items()})[0]
        n = min(n, 1 << 16)
        b = bytearray(n)
        for o, x in model['arrays'].get(arr, {}).items():
            if o < n:
                b[o] = x
        lines.append(f'{nm} {b.hex() or "-"}')
    return '\n'.join(lines) + '\n'


def vs_defaults(t, vs):
    return vs


if __name__ == '__main__':
    import check
    src, names = os.path.abspath(sys.argv[1]), sys.argv[2:]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, os.path.basename(src) + '.dbg.ll')
    d = check.scan()[src]
    compile_ll(src, out, d['flags'], d['opt'], d['ub'])
    mod = load(out)
    dem = demangle(list(mod.funcs))
    for p in names or list(d['proofs']):
        ps = parts(d['proofs'][p]['opts'])
        sel = os.environ.get('VP_PART')
        if sel:
            ps = [o for o in ps if all(str(o['fix'][k]) == v for k, v in (x.split('=') for x in sel.split(',')))]

        def go(opts):
            R = run_proof(mod, dem, p, opts)
            bad = [(o.status, o.by, o.name(), model_inputs(R.engine, o.model).replace('\n', ' | ')[:300] if o.model else '') for o in R.obs if o.status != 'proved']
            return dict(n=len(R.obs), bad=bad, error=R.error, ts=R.t_sym, tv=R.t_solve, steps=R.engine.steps, feas=R.engine.feas_calls, covers=R.covers, cuts=R.engine.cut_stats, fix=opts.get('fix'))
        rs = [(0, go(ps[0]))] if len(ps) == 1 else solve.pmap(go, [dict(o, workers=1) for o in ps], 8, 900)
        n = nb = 0
        t0 = time.time()
        for i, r in rs:
            if not isinstance(r, dict):
                print(ps[i].get('fix'), 'LOST', str(r)[:200])
                continue
            n += r['n']
            nb += len(r['bad'])
            if len(ps) == 1 or r['bad'] or r['error'] or os.environ.get('VP_ALL'):
                print(f"{p}{r['fix'] or ''}: {r['n']} obligations, {r['n']-len(r['bad'])} proved, error={r['error']}, sym {r['ts']:.1f}s solve {r['tv']:.1f}s steps {r['steps']} feas {r['feas']} covers {r['covers']} cuts {r['cuts']}")
            for b in r['bad'][:20]:
                print('   ', *b[:3])
                print('       ', b[3])
        if len(ps) > 1:
            print(f'{p}: {len(ps)} cases, {n} obligations, {n-nb} proved; slowest', max([(r['ts'] + r['tv'], str(r['fix'])) for _, r in rs if isinstance(r, dict)], default=None))
