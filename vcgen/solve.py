"""Discharging obligations: z3 (python API), with cvc5 and a SAT back end as fallbacks.
Every query runs in a forked child that can be killed."""
import ctypes
import os
import pickle
import select as _select
import signal
import subprocess
import tempfile
import time
from terms import *


_libc = ctypes.CDLL(None)


def _import_z3():
    import z3
    return z3


HARD_OPS = {'mul', 'udiv', 'urem', 'sdiv', 'srem', 'fp'}


class Feas:
    """path feasibility during symbolic execution (unknown counts as feasible)"""

    def __init__(self, eng):
        z3 = _import_z3()
        self.z3 = z3
        self.conv = Z3Conv(z3)
        self.s = self.fresh()
        self.nax = 0
        self.cache = {}
        self.hardc = {}
        self.z2 = None
        self.eng = eng

    def check(self, pc):
        key = tuple(c.id for c in pc)
        r = self.cache.get(key)
        if r is not None:
            return r
        if not pc:
            return True
        ms = self.eng.o['solver_ms']
        if any(self.hard(c) for c in pc):
            if self.z2 is None:
                self.z2 = (self.fresh(), Z3Conv(self.z3))
                self.z2[1].abstract = True
            r = self.query(self.z2, pc, ms)
            if r:
                r = self.query((self.s, self.conv), pc, 250)
        else:
            r = self.query((self.s, self.conv), pc, ms)
        self.cache[key] = r
        return r

    def fresh(self):
        return self.z3.SolverFor('QF_AUFBV')

    def hard(self, c):
        """mentions division or a product of variables: only tried briefly"""
        h = self.hardc.get(c.id)
        if h is not None:
            return h
        st = [c]
        while st:
            x = st[-1]
            if x.id in self.hardc:
                st.pop()
                continue
            if x.op in HARD_OPS:
                self.hardc[x.id] = True
                st.pop()
                continue
            todo = [a for a in x.args if isinstance(a, Node) and a.id not in self.hardc]
            if todo:
                st.extend(todo)
                continue
            self.hardc[x.id] = any(isinstance(a, Node) and self.hardc[a.id] for a in x.args)
            st.pop()
        return self.hardc[c.id]

    def query(self, sc, pc, ms):
        s, conv = sc
        s.set('timeout', ms)
        s.push()
        for c in pc:
            s.add(conv.conv(c))
        for a in conv.axioms:
            s.add(a)
        for g in self.eng.global_axioms:
            s.add(conv.conv(g))
        r = s.check() != self.z3.unsat
        s.pop()
        return r


def build(z3, pcs_goals, axioms=()):
    conv = Z3Conv(z3)
    alts = []
    for pc, goal in pcs_goals:
        f = [conv.conv(c) for c in (pc or ())]
        g = lnot(goal) if goal is not None else True
        f.append(conv.conv(g))
        alts.append(z3.And(*f) if len(f) > 1 else f[0])
    top = z3.Or(*alts) if len(alts) > 1 else alts[0]
    ax = [conv.conv(a) for a in axioms]
    return conv, [top] + ax + conv.axioms


def has_arrays(conv):
    return bool(conv.arrays) or bool(conv.funcs)


def model_of(z3, m, conv, roots):
    """evaluate named variables and array reads"""
    out = {'vars': {}, 'arrays': {}}
    for n, v in conv.vars.items():
        x = m.eval(v, model_completion=True)
        if z3.is_bv_value(x):
            out['vars'][n] = x.as_long()
        else:
            out['vars'][n] = bool(z3.is_true(x))
    for n in reach(roots):
        if n.op == 'sel':
            off = m.eval(conv.bv(n.args[0], 64), model_completion=True)
            v = m.eval(conv.m[n.id], model_completion=True)
            try:
                out['arrays'].setdefault(n.p[0], {})[off.as_long()] = v.as_long()
            except Exception:
                pass
    return out


def solve_one(pcs_goals, axioms, timeout, portfolio=True):
    """returns (status, model, backend)"""
    z3 = _import_z3()
    conv, fs = build(z3, pcs_goals, axioms)
    roots = [c for pc, g in pcs_goals for c in (pc or ())] + [g for _, g in pcs_goals if isinstance(g, Node)] + list(axioms)
    roots = [r for r in roots if isinstance(r, Node)]
    t0 = time.time()
    arr = has_arrays(conv)
    logic = 'QF_AUFBV' if arr else 'QF_BV'
    t1 = timeout if not portfolio else max(1.0, min(10, timeout * 0.3))

    def z3run(mk, t):
        s = mk()
        s.set('timeout', int(t * 1000))
        for f in fs:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', model_of(z3, s.model(), conv, roots)
        return 'unknown', None
    r, m = z3run(lambda: z3.SolverFor(logic), t1)
    if r != 'unknown':
        return r, m, 'z3'
    if not portfolio:
        return r, None, 'z3'
    s = z3.Solver()
    for f in fs:
        s.add(f)
    smt = s.to_smt2()
    smt = f'(set-logic {"QF_AUFBV" if arr else "QF_BV"})\n' + smt
    left = timeout - (time.time() - t0)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(smt)
        fn = fh.name
    try:
        procs = []
        cmds = [('cvc5', ['cvc5', '--quiet', f'--tlimit={int(left * 900)}', fn]),
                ('z3-default', ['z3-new', f'-T:{max(1, int(left * 0.9))}', 'tactic.default_tactic=smt', fn])]
        if not arr:
            cmds.append(('cvc5-bitblast', ['cvc5', '--quiet', '--bitblast=eager', f'--tlimit={int(left * 900)}', fn]))
        for b, c in cmds:
            procs.append((b, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        res = 'unknown'
        who = None
        while procs and time.time() - t0 < timeout:
            for b, p in list(procs):
                if p.poll() is not None:
                    o = p.stdout.read().strip().split('\n')[0].strip()
                    procs.remove((b, p))
                    if o in ('sat', 'unsat'):
                        res, who = o, b
                        break
            if res != 'unknown':
                break
            time.sleep(0.02)
        for b, p in procs:
            p.kill()
            p.wait()
        if res == 'unsat':
            return 'unsat', None, who
        if res == 'sat':
            r, m = z3run(lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver() if not arr else z3.Solver(), max(5, timeout * 0.3))
            return 'sat', m, who
    finally:
        os.unlink(fn)
    return 'unknown', None, 'portfolio'


def _child(fd, fn, arg):
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)  # die with the parent
    except Exception:
        pass
    try:
        r = fn(arg)
    except BaseException as e:
        r = ('error', repr(e))
    data = pickle.dumps(r)
    with os.fdopen(fd, 'wb') as f:
        f.write(data)
    os._exit(0)


def pmap(fn, args, workers, hard, until=None, tick=None):
    """run fn(arg) in forked children; yields (index, result). result ('timeout',) on kill"""
    todo = list(enumerate(args))[::-1]
    run = {}
    try:
        yield from _pmap(fn, todo, run, workers, hard, until, tick)
    finally:
        for r in list(run):
            i, pid, t, buf = run[r]
            _kill(pid)
            os.close(r)


def _kill(pid):
    for k in (os.killpg, os.kill):
        try:
            k(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)


def _pmap(fn, todo, run, workers, hard, until, tick):
    last = time.time()
    while todo or run:
        if until and time.time() > until:
            for i, a in todo:
                yield i, ('timeout',)
            todo = []
        while todo and len(run) < workers:
            i, a = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setsid()
                _libc.prctl(1, signal.SIGKILL)   # die with the parent
                _child(w, fn, a)
            os.close(w)
            run[r] = (i, pid, time.time(), [])
        rl, _, _ = _select.select(list(run), [], [], 0.5)
        for r in rl:
            i, pid, t, buf = run[r]
            d = os.read(r, 1 << 16)
            if d:
                buf.append(d)
                continue
            os.close(r)
            del run[r]
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(b''.join(buf))
            except Exception:
                res = ('error', 'child died')
            yield i, res
        now = time.time()
        if tick and now > last + tick:
            yield None, [run[r][0] for r in run]
            last = time.time()
        for r in list(run):
            i, pid, t, buf = run[r]
            if now - t > hard or until and now > until:
                _kill(pid)
                os.close(r)
                del run[r]
                yield i, ('timeout',)


def discharge(obs, axioms=(), timeout=60, workers=8, group=24, log=None, prefer=()):
    """set status/model/time/by on every undecided obligation"""
    pend = [o for o in obs if o.status is None]
    # identical goals under identical hypotheses are one query
    uniq = {}
    for o in pend:
        k = (tuple(c.id for c in o.pc), o.goal.id if isinstance(o.goal, Node) else o.goal)
        uniq.setdefault(k, []).append(o)
    reps = [v[0] for v in uniq.values()]
    soft = [o for o in reps if o.kind in ('memory', 'unreachable')]
    hard_ = [o for o in reps if o.kind not in ('memory', 'unreachable')]
    groups = [soft[i:i + group] for i in range(0, len(soft), group)]
    groups += [[o] for o in hard_]

    def work(g):
        t = time.time()
        r = solve_one([(o.pc, o.goal) for o in g], axioms, timeout)
        if r[0] == 'sat' and len(g) == 1:
            # a smaller counterexample, where one is found quickly
            for extra in prefer:
                o = g[0]
                q = solve_one([(tuple(o.pc) + tuple(extra), o.goal)], axioms, 15, portfolio=False)
                if q[0] == 'sat':
                    r = q
                    break
        return r + (time.time() - t,)
    retry = []
    bad = [0, 0]

    def enough():
        """further answers would not change the verdict"""
        return bad[0] >= 3 or bad[1] >= 4 * workers
    for i, r in pmap(work, groups, workers, timeout * 2 + 30):
        g = groups[i]
        if enough():
            break
        if r[0] == 'unsat':
            for o in g:
                o.status, o.by, o.time = 'proved', r[2], r[3] / len(g)
        elif len(g) == 1:
            o = g[0]
            if r[0] == 'sat':
                o.status, o.model, o.by, o.time = 'failed', r[1], r[2], r[3]
                bad[0] += 1
            else:
                bad[1] += 1
                o.status = 'unknown'
                o.by = r[0] if r[0] in ('timeout',) else str(r[1] if r[0] == 'error' else r[0])
                o.time = r[-1] if isinstance(r[-1], float) else timeout
        else:
            retry += [[o] for o in g]
    if retry:
        groups = retry
        for i, r in pmap(work, groups, workers, timeout * 2 + 30):
            o = groups[i][0]
            if enough():
                break
            if r[0] == 'unsat':
                o.status, o.by, o.time = 'proved', r[2], r[3]
            elif r[0] == 'sat':
                o.status, o.model, o.by, o.time = 'failed', r[1], r[2], r[3]
                bad[0] += 1
            else:
                bad[1] += 1
                o.status = 'unknown'
                o.by = str(r[1] if r[0] == 'error' else r[0])
                o.time = r[-1] if isinstance(r[-1], float) else timeout
    for o in reps:
        if o.status is None:
            o.status, o.by = 'unknown', 'not tried: other obligations of the contract fail'
    for v in uniq.values():
        for o in v[1:]:
            o.status, o.model, o.by = v[0].status, v[0].model, v[0].by
    return obs
