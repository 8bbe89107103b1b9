"""check.py ID: decide one property; write evidence/ID.json.
Exit 0: every obligation generated from /repo's current source is discharged.
Exit 1: VIOLATION line(s)."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import verify
import llir
import solve
from verify import REPO, BUILD

T0 = time.time()
HARN = os.path.join(VERIF, 'harness')
EVID = os.environ.get('VP_EVID', os.path.join(VERIF, 'evidence'))
LIMIT = float(os.environ.get('VP_LIMIT', '840'))
NPROC = os.cpu_count() or 8


def scan():
    """harness proofs: {file: {'flags':[], 'proofs': {name: {'props':[], 'opts':{}, 'tier':..., 'bounded':...}}}}"""
    out = {}
    for f in sorted(glob.glob(os.path.join(HARN, '*.cpp'))):
        if os.path.basename(f) == 'vp_native.cpp':
            continue
        txt = open(f).read()
        m = re.search(r'//@flags (.*)', txt)
        d = {'flags': m.group(1).split() if m else [], 'proofs': {}, 'ub': '//@ub' in txt}
        m = re.search(r'//@opt (\S+)', txt)
        d['opt'] = m.group(1) if m else '-O1'
        props, bounded, opts, thorough = [], None, {}, False
        for line in txt.split('\n'):
            if line.startswith('//@ '):
                props = line[4:].split()
                thorough = 'thorough' in props
            elif line.startswith('//@bounded '):
                bounded = line[11:].strip()
            elif line.startswith('//@opts '):
                opts = json.loads(line[8:])
            else:
                m = re.match(r'PROOF\((\w+)\)', line)
                if m:
                    d['proofs'][m.group(1)] = dict(props=props, bounded=bounded, opts=opts, thorough=thorough)
                    props, bounded, opts, thorough = [], None, {}, False
        out[f] = d
    return out


def functions_of(mod, e):
    """functions of /repo whose code was executed symbolically"""
    seen = set()
    for fn, bn in e.seen_blocks:
        b = mod.funcs[fn].blocks[bn]
        for ins in list(b.ins) + list(b.phis):
            d = ins.dbg
            k = 0
            while d and d not in seen and k < 40:
                k += 1
                seen.add(d)
                m = re.search(r'inlinedAt: (!\d+)', mod.meta.get(d, ''))
                d = m.group(1) if m else None
    out = set()
    for d in seen:
        l = mod.loc(d)
        if l and l[0] and (l[0].startswith(REPO + '/') or '/include/eosio/' in l[0] or '/src/' in l[0]) and l[2]:
            f = l[0]
            if f.startswith(VERIF):
                continue
            out.add(re.sub(r'^.*?/(include/eosio|src)/(\.\./include/eosio/)?', r'\1/', f) + ':' + l[2])
    return out


def run_one(task):
    mod, dem, name, opts = task
    R = verify.run_proof(mod, dem, name, opts)
    e = R.engine
    res = dict(name=name, error=R.error, t_sym=R.t_sym, t_solve=R.t_solve, covers=R.covers, steps=e.steps,
               cuts=e.cut_stats, models=sorted(e.used_models), contracts=sorted(e.used_contracts),
               trusted=sorted(e.trusted), obs=[], fns=sorted(functions_of(e.m, e)), cases=1, split=sorted(e.split_seen))
    for o in R.obs:
        mi = None
        if o.status == 'failed' and o.model:
            try:
                mi = verify.model_inputs(e, o.model)
            except Exception as ex:
                mi = None
        res['obs'].append((o.kind, o.name(), o.status, o.by, o.time, mi, any(c.op == 'approx' for c in ()) ))
    return res


def lost(why):
    return dict(error=why, t_sym=0, t_solve=0, covers={}, steps=0, cuts=[], models=[], contracts=[], trusted=[], obs=[], fns=[], cases=1, split=[])


def merge_results(a, b):
    """combine the cases of one contract"""
    a['error'] = a['error'] or b['error']
    for k in ('t_sym', 't_solve', 'steps', 'cases'):
        a[k] += b[k]
    for k in ('cuts', 'obs'):
        a[k] = a[k] + b[k]
    for k in ('models', 'contracts', 'trusted', 'fns', 'split'):
        a[k] = sorted(set(a[k]) | set(b[k]))
    rank = {'reachable': 2, 'unknown': 1, 'unreachable': 0}
    for c, s in b['covers'].items():
        if rank[s] >= rank[a['covers'].get(c, 'unreachable')]:
            a['covers'][c] = s


def compile_native(f, flags, d, ub):
    out = os.path.join(d, os.path.basename(f) + '.native')
    san = 'address' + (',signed-integer-overflow,shift,integer-divide-by-zero' if ub else '')
    cmd = [verify.CLANG, '-O1', '-g1', f'-fsanitize={san}', '-fno-sanitize-recover=all', '-rdynamic'] + verify.flags(flags) + \
          ['-o', out, f, os.path.join(HARN, 'vp_native.cpp'), '-ldl']
    r = subprocess.run(cmd, capture_output=True, text=True)
    return out if r.returncode == 0 else None


def compile_fuzz(f, flags, d):
    out = os.path.join(d, os.path.basename(f) + '.fuzz')
    cmd = [verify.CLANG, '-O1', '-g1', '-DVP_FUZZ', '-fsanitize=fuzzer,address', '-rdynamic'] + verify.flags(flags) + \
          ['-o', out, f, os.path.join(HARN, 'vp_native.cpp'), '-ldl']
    r = subprocess.run(cmd, capture_output=True, text=True)
    return out if r.returncode == 0 else None


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:max_allocation_size_mb=2000',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=77')


def native_fail(rc):
    """the real code failed on this input (assertion, sanitizer or crash)"""
    return rc == 77 or rc < 0


def sandboxed(cmd, timeout, env=None):
    d = tempfile.mkdtemp(prefix='vp_run_')
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=env or ENV, cwd=d)
        return r.returncode, (r.stdout + r.stderr).decode('latin1')
    except subprocess.TimeoutExpired as ex:
        return None, 'timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    h = scan()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'{pid}_', dir=BUILD)
    verify.overlay()
    tasks = []
    for f, d in h.items():
        for n, p in d['proofs'].items():
            if pid in p['props'] and (tier == 'thorough' or not p['thorough']):
                tasks.append((f, n, p))
    if not tasks:
        print('no proofs registered for', pid)
        return 2
    files = sorted({f for f, _, _ in tasks})
    mods = {}
    cerr = {}
    cmds = {}

    def comp(f):
        out = os.path.join(work, os.path.basename(f) + '.ll')
        try:
            return ('ok', verify.compile_ll(f, out, h[f]['flags'], h[f]['opt'], h[f]['ub']), out)
        except verify.CompileError as ex:
            return ('err', str(ex), None)
    for i, r in solve.pmap(comp, files, NPROC, 300):
        f = files[i]
        if r[0] == 'ok':
            cmds[f] = r[1]
            mod = verify.load(r[2])
            mods[f] = (mod, verify.demangle(list(mod.funcs)))
        else:
            cerr[f] = r[1] if len(r) > 1 else 'timeout'
    results = {}
    jobs = []
    jobkey = []
    runnable = [(f, n, p) for f, n, p in tasks if f in mods]
    per = max(1, min(8, (2 * NPROC) // max(1, min(NPROC, len(runnable)))))
    for f, n, p in runnable:
        o = dict(timeout=120, workers=per)
        if p['opts']:
            o.update(p['opts'])
        o['deadline'] = T0 + LIMIT * 0.6
        ps = verify.parts(o)
        if len(ps) > 1:
            for q in ps:
                q['workers'] = 1
        for q in ps:
            jobs.append((mods[f][0], mods[f][1], n, q))
            jobkey.append((f, n, p))
    rdir = os.path.join(EVID, 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    nat = {}
    tried = {}
    confirmed = None

    def native(f):
        if f not in nat:
            nat[f] = compile_native(f, h[f]['flags'], work, h[f]['ub'])
        return nat[f]

    def replay(f, n, ms):
        """the verifier's counterexamples on the real code"""
        if not ms or not native(f):
            return None
        os.makedirs(rdir, exist_ok=True)
        for oname, text in ms[:4]:
            path = os.path.join(rdir, f'{n}.txt')
            with open(path, 'w') as fh:
                fh.write(f'# property {pid}, harness {os.path.basename(f)}, contract {n}\n# failed obligation: {oname}\n'
                         f'# replay: {VERIF}/bin/replay {path}\n' + text)
            rc, out = sandboxed([native(f), n, 'replay', path], 30)
            if rc is not None and native_fail(rc):
                with open(path, 'a') as fh:
                    fh.write('# replayed on the real code:\n' + ''.join('# ' + l + '\n' for l in out.split('\n')[:25]))
                return path
            os.unlink(path)
        return None

    def search(f, n, why, budget, fuzz):
        """a failing input by executing the contract on the real code"""
        if not native(f):
            return None
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{n}.txt')
        tmp = path + ('.fz' if fuzz else '.se')
        if not fuzz:
            rc, out = sandboxed([native(f), n, 'search', str(budget), str(seed), tmp], budget + 30)
        else:
            fz = compile_fuzz(f, h[f]['flags'], tempfile.mkdtemp(dir=work))
            if not fz:
                return None
            rc, out = sandboxed([fz, f'-max_total_time={int(budget)}', f'-seed={seed}', '-max_len=300', '-rss_limit_mb=4000', '-malloc_limit_mb=3500'],
                                budget + 60, dict(ENV, VP_PROOF=n, VP_OUT=tmp))
        if rc is None or not native_fail(rc) or not os.path.exists(tmp):
            if os.path.exists(tmp):
                os.unlink(tmp)
            return None
        rc, out = sandboxed([native(f), n, 'replay', tmp], 30)
        t = open(tmp).read()
        os.unlink(tmp)
        if rc is None or not native_fail(rc):
            return None
        with open(path, 'w') as fh:
            fh.write(f'# property {pid}, harness {os.path.basename(f)}, contract {n}\n' + ''.join('# ' + w[:300].replace('\n', ' ') + '\n' for w in why[:8])
                     + f'# failing input found by executing the contract on the real code\n# replay: {VERIF}/bin/replay {path}\n' + t
                     + '# replayed on the real code:\n' + ''.join('# ' + l + '\n' for l in out.split('\n')[:25]))
        return path
    done = {}
    for i, r in solve.pmap(run_one, jobs, NPROC, 900, T0 + LIMIT * 0.75, 15):
        if i is None:
            # obligations that take long: meanwhile, execute their contract on the real code
            for f, n in sorted({jobkey[j][:2] for j in r}) if time.time() - T0 > 40 else ():
                k = tried.setdefault((f, n), [0, 0])
                if not k[1]:
                    k[1] = 1
                    confirmed = search(f, n, ['obligations not decided yet'], 4, False)
                    break
            if confirmed:
                break
            continue
        f, n, p = jobkey[i]
        if not isinstance(r, dict):
            r = lost('proof process: ' + repr(r)[:300])
        done[i] = r
        nok = [o for o in r['obs'] if o[2] != 'proved']
        if nok or r['error']:
            # one confirmed counterexample settles the verdict
            k = tried.setdefault((f, n), [0, 0])
            if k[0] < 6 and any(o[5] for o in nok):
                k[0] += 1
                confirmed = replay(f, n, [(o[1], o[5]) for o in nok if o[5]])
            if not confirmed and k[1] < 3 and time.time() - T0 < LIMIT * 0.6:
                k[1] += 1
                confirmed = search(f, n, [r['error'] or 'obligation ' + o[2] + ': ' + o[1] for o in (nok or [0])], 6 * k[1], False)
            if confirmed:
                break
    # a query that no back end settled in time (a busy machine) is tried once more, alone
    again = [i for i, r in done.items() if not r['error'] and any(o[2] == 'unknown' for o in r['obs']) and all(o[2] != 'failed' for o in r['obs'])]
    if not confirmed and again and len(again) <= 12 and not any(r['error'] or any(o[2] == 'failed' for o in r['obs']) for r in done.values()):
        for i, r in solve.pmap(run_one, [jobs[j][:3] + (dict(jobs[j][3], workers=4, timeout=240),) for j in again], 2, 400, T0 + LIMIT * 0.85):
            if isinstance(r, dict):
                done[again[i]] = r
    for i in sorted(done):
        k = jobkey[i][:2]
        if k in results:
            merge_results(results[k], done[i])
        else:
            results[k] = done[i]
    for f, n, p in runnable:
        if (f, n) not in results:
            results[(f, n)] = lost('not executed')

    # ------------------------------------------------------------------ verdict
    bad = []   # (file, proof, reason lines, [models])
    for f, n, p in tasks:
        if f in cerr:
            bad.append((f, n, ['the contract harness no longer compiles against the current source:', cerr[f][-1500:]], []))
            continue
        r = results[(f, n)]
        why = []
        ms = []
        if r['error']:
            why.append('obligations could not be generated: ' + r['error'])
        for o in r['obs']:
            if o[2] != 'proved':
                why.append(f'obligation {o[2]}: {o[1]} (by {o[3]})')
                if o[5]:
                    ms.append((o[1], o[5]))
        for k, (lo, hi) in (p['opts'].get('split') or {}).items():
            if not r['error'] and {x for x in r['split'] if x[0] == k} != {(k, lo, hi)}:
                why.append(f'the case analysis on "{k}" does not cover its range')
        if not r['error'] and not why:
            if not r['obs']:
                why.append('no obligation was generated')
            for c, s in r['covers'].items():
                if s == 'unreachable':
                    why.append(f'vacuous: cover point "{c}" is unreachable')
        if why:
            bad.append((f, n, why, ms))
    viol = []
    if confirmed:
        bad = [x for x in bad if 'not executed' not in x[2][0] or len(x[2]) > 1] or bad
    if bad:
        os.makedirs(rdir, exist_ok=True)
        bad.sort(key=lambda b: -len(b[3]))
        for f, n, why, ms in bad:
            print(f'--- {os.path.basename(f)}:{n}')
            for w in why[:12]:
                print('   ', w[:600])
        todo = [b for b in bad if b[0] not in cerr]
        if not confirmed:
            for f, n, why, ms in todo:
                if tried.get((f, n), [0])[0] < 6:
                    confirmed = replay(f, n, ms)
                    if confirmed:
                        break
        if not confirmed and todo:
            budget = max(5, min(60, (T0 + LIMIT - time.time()) * 0.3))
            for f, n, why, ms in todo[:4]:
                native(f)
            args = [(b, k) for b in todo[:4] for k in (False, True)]
            for i, r in solve.pmap(lambda a: search(*a[0][:3], budget, a[1]), args, NPROC, budget + 150):
                if isinstance(r, str):
                    confirmed = r
                    break
        if confirmed:
            viol.append((confirmed, True))
        if not confirmed:
            f, n, why, ms = bad[0]
            path = os.path.join(rdir, f'{n}.txt')
            with open(path, 'w') as fh:
                fh.write(f'# property {pid}, harness {os.path.basename(f)}, contract {n}\n')
                for f, n, why, ms in bad:
                    fh.write(f'# {os.path.basename(f)}:{n}\n' + ''.join('#   ' + w[:1500].replace('\n', '\n#   ') + '\n' for w in why[:20]))
                    for oname, t in ms[:2]:
                        fh.write('# verifier model (did not fail when executed): ' + t.replace('\n', ' | ')[:600] + '\n')
            viol.append((path, False))
    # ------------------------------------------------------------------ evidence
    tot = disc = 0
    bt = bd = 0
    by = {}
    rows = []
    fns = set()
    models = set()
    contracts = set()
    cuts = 0
    ts = 0.0
    for f, n, p in tasks:
        r = results.get((f, n))
        if not r:
            rows.append(dict(contract=n, harness=os.path.basename(f), error='not generated'))
            continue
        k = len(r['obs'])
        d = sum(1 for o in r['obs'] if o[2] == 'proved')
        if p['bounded']:
            bt += k
            bd += d
        else:
            tot += k
            disc += d
        for o in r['obs']:
            if o[2] == 'proved':
                by[o[3]] = by.get(o[3], 0) + 1
            ts += o[4] or 0
        fns |= set(r['fns'])
        models |= set(r['models'])
        contracts |= {c[0] + ' -> ' + c[1] for c in r['contracts']}
        cuts += len(r['cuts'])
        row = dict(contract=n, harness=os.path.basename(f), obligations=k, discharged=d, symbolic_s=round(r['t_sym'], 2),
                   solver_s=round(r['t_solve'], 2), covers=r['covers'])
        if r['cases'] > 1:
            row['cases'] = r['cases']
        if p['bounded']:
            row['bounded'] = p['bounded']
        if r['cuts']:
            row['loops_by_invariant'] = r['cuts'][:12]
        if r['error']:
            row['error'] = r['error'][:300]
        rows.append(row)
    import importlib
    tb = ['clang 18 front end and -O1 optimiser (the verified text is the LLVM IR of /repo\'s own sources, recompiled on every run; no sanitizer or assertion removed)',
          '/verif/vcgen: LLVM IR symbolic semantics and verification-condition generator',
          'SMT back ends z3 5.3.2 / z3 4.15+ / cvc5 1.1.2 (unsat answers are believed)',
          'assumed contracts (vcgen/models.py) on functions outside /repo: ' + ', '.join(sorted(m for m in models if not m.startswith('__vp') and not m.startswith('llvm.')))]
    assumptions = ['memory allocation succeeds up to 2^38 bytes and throws std::bad_alloc above',
                   'x86-64 little-endian, gnu++17, libstdc++ 13 (its inline code is executed symbolically, not trusted)',
                   'machine integers are bit-vectors (no mathematical-integer idealisation)']
    if contracts:
        assumptions.append('callees replaced by their contracts: ' + ', '.join(sorted(contracts)))
    cov = dict(obligations=tot, discharged=disc, checker_cmd=f'cd /verif && bin/check {pid}', trusted_base=tb,
               back_ends=by, solver_s=round(ts, 2), contracts=rows, functions_under_contract=sorted(fns),
               loops_by_invariant=cuts, compile_cmds=sorted(cmds.values())[:6])
    if bt:
        cov['bounded_obligations'] = bt
        cov['bounded_discharged'] = bd
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - T0, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f'.{pid}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(EVID, f'{pid}.json'))
    shutil.rmtree(work, ignore_errors=True)
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r'finding: property=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                print(f'KNOWN-FINDING: property={pid} {m.group(2)}')
    print(f'{pid}: {len(tasks)} contracts, {tot} obligations, {disc} discharged' + (f', bounded {bd}/{bt}' if bt else '') +
          f', {len(fns)} functions, {time.time()-T0:.1f}s')
    for path, conf in viol:
        print(f'VIOLATION property={pid} replay={path}' + ('' if conf else ' no-failing-input-found'))
    return 1 if viol else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
