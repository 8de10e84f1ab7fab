"""One property's check: extract the current tree, discharge every obligation, concretise what fails."""
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pv import extract      # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def hints_of(model):
    """strings and integers of a counterexample: seeds for the search of a failing input on the real code"""
    import z3
    strs, ints = set(), set()

    def walk(e, d=0):
        if d > 12:
            return
        if z3.is_string_value(e):
            strs.add(e.as_string())
            return
        if z3.is_int_value(e):
            ints.add(e.as_long())
            return
        for c in e.children():
            walk(c, d + 1)
    for d in model.decls():
        v = model[d]
        try:
            if isinstance(v, z3.FuncInterp):
                for i in range(min(v.num_entries(), 20)):
                    en = v.entry(i)
                    walk(en.value())
                    for j in range(en.num_args()):
                        walk(en.arg_value(j))
                walk(v.else_value())
            else:
                walk(v)
        except Exception:
            pass
    return sorted(strs), sorted(x for x in ints if abs(x) < 1 << 64)


def literals(E, paths):
    """string and integer literals of the functions executed (for the bounded stand-in)"""
    strs, ints = set(), set()
    for p in paths:
        try:
            with open(E.by_path[p]) as fh:
                t = fh.read()
        except Exception:
            continue
        for m in re.finditer(r'const "((?:[^"\\]|\\.)*)"', t):
            strs.add(m.group(1))
        for m in re.finditer(r'const (-?\d+)_[iu](?:8|16|32|64|size)', t):
            ints.add(int(m.group(1)))
        for m in re.finditer(r'(Shl|Mul|MulWithOverflow|ShlUnchecked)\(const (\d+)_\w+, const (\d+)_\w+\)', t):
            a, b = int(m.group(2)), int(m.group(3))
            if m.group(1).startswith('Mul'):
                ints.add(a * b)
            elif b < 64:
                ints.add(a << b)
    return sorted(strs), sorted(ints)


def one(args):
    """verify one contract in its own process"""
    modname, cname, x, tier, only = args
    try:
        sys.setrecursionlimit(50000)
        import pv.engine as en
        from pv.contract import verify
        mod = importlib.import_module('pv.contracts.' + modname)
        c = getattr(mod, cname)()
        E = en.Engine(x['mir'], x['doc'], bin=(x['binmir'], x['bindoc']) if getattr(c, 'bin', False) else None,
                      timeout_ms=20000 if tier == 'quick' else 120000)
        if tier == 'thorough':
            c.dump = []
            c.budget *= 4
        r = verify(E, c)
        out = dict(contract=cname, module=modname, target=c.target, title=c.title or (c.__doc__ or '').strip(), status=r.status, error=r.error,
                   outcomes=r.outcomes, secs=round(r.secs, 2), solver_secs=round(r.solver_secs, 2), queries=r.queries,
                   covers=r.covers, trusted=sorted(r.trusted), inlined=sorted(en.short(p) for p in r.inlined),
                   contracts_used=sorted(r.contracts_used), assumes=list(c.assumes),
                   loops=sorted({f'{en.short(l[0][-1] if l[0][0] == "drive" else l[0][0])}: ' + '; '.join(re.sub(r'\d+', '', k) for k in l[1]) for l in r.loops}),
                   obligations=[], hints=[[], []], literals=[[], []])
        cnt = {}
        if only:
            # a function several properties depend on: this property is decided by these of its obligations
            rest = [o for o in r.obls if not re.search(only, o.name)]
            r.obls = [o for o in r.obls if re.search(only, o.name)]
            out['only'] = only
            out['other_obligations'] = len(rest)
            out['status'] = r.status
        for o in r.obls:
            k = cnt.setdefault(o.name, dict(name=o.name, n=0, proved=0, failed=[]))
            k['n'] += 1
            if o.status == 'proved':
                k['proved'] += 1
            else:
                k['failed'].append(dict(status=o.status, detail=o.detail[:1500], model=str(o.model)[:6000] if o.model is not None else None))
                if o.model is not None:
                    a, b = hints_of(o.model)
                    out['hints'][0] += a
                    out['hints'][1] += b
        out['obligations'] = list(cnt.values())
        if r.status != 'proved':
            a, b = literals(E, list(r.inlined) + [p for p in E.by_path if p.startswith(c.target.rsplit('::', 1)[0] + '::')])
            out['literals'] = [a, b]
        if c.dump:
            out['cvc5'] = cvc5_recheck(E, c.dump)
        return out
    except BaseException as e:
        return dict(contract=cname, module=modname, target='?', title='', status='undecided', error=f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:],
                    outcomes=0, secs=0, solver_secs=0, queries=0, covers={}, trusted=[], inlined=[], contracts_used=[], assumes=[], loops=[],
                    obligations=[], hints=[[], []], literals=[[], []])


def cvc5_recheck(E, dump):
    """second opinion: the same obligations through cvc5"""
    import z3
    agree = unknown = disagree = 0
    t0 = time.time()
    for pc, goal, name in dump:
        if time.time() - t0 > 600:
            unknown += 1
            continue
        s = z3.Solver()
        for c in E.axioms:
            s.add(c)
        for c in pc:
            s.add(c)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', '--strings-exp', '-q', '-'], input=txt, text=True, capture_output=True, timeout=20)
            o = p.stdout.strip().splitlines()[-1:] or ['']
        except subprocess.TimeoutExpired:
            o = ['unknown']
        if o[0] == 'unsat':
            agree += 1
        elif o[0] == 'sat':
            disagree += 1
        else:
            unknown += 1
    return dict(obligations=len(dump), discharged_by_cvc5=agree, unknown=unknown, disagree=disagree)


def load_known():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith('#') and not ln.startswith('fixed:'):
                m = re.match(r'finding: property=(\S+) (.*)', ln)
                if m:
                    out.append((m.group(1), m.group(2)))
    return out


def search(pid, spec, results, budget, why):
    """look for a failing input on the real code: the property's executable oracle against /repo's crate"""
    h = [set(), set()]
    for r in results:
        for k in ('hints', 'literals'):
            h[0] |= set(r[k][0])
            h[1] |= set(r[k][1])
    rep = dict(violation=None, evaluations=0, ran=[])
    for fn in spec.get('search', ()):
        try:
            v = fn(dict(pid=pid, seed=SEED, tier=TIER, strs=sorted(h[0])[:200], ints=sorted(h[1])[:200], budget=budget, why=why))
        except Exception as e:
            rep['ran'].append(dict(search=getattr(fn, '__name__', str(fn)), error=f'{type(e).__name__}: {e}'[:1500]))
            continue
        rep['ran'].append(dict(search=getattr(fn, '__name__', str(fn)), **{k: v[k] for k in v if k != 'violation'}))
        rep['evaluations'] += v.get('evaluations', 0)
        if v.get('violation'):
            rep['violation'] = v['violation']
            break
    return rep


def main(pid):
    t0 = time.time()
    from pv.registry import CHECKS
    spec = CHECKS[pid]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    x = extract.extract()
    jobs = [(c[0], c[1], x, TIER, c[2] if len(c) > 2 else None) for c in spec['contracts']]
    if len(jobs) > 1 and not os.environ.get('PV_SERIAL'):
        with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
            results = pool.map(one, jobs, chunksize=1)
    else:
        results = [one(j) for j in jobs]
    nobl = sum(o['n'] for r in results for o in r['obligations'])
    ndis = sum(o['proved'] for r in results for o in r['obligations'])
    refuted = [r for r in results if r['status'] == 'refuted']
    undec = [r for r in results if r['status'] in ('undecided', 'vacuous')]
    bounded = []
    violation = None
    searched = None
    # functions outside the verifier's reach that are checked with a stated bound on every run
    for fn in spec.get('bounded', ()):
        v = fn(dict(pid=pid, seed=SEED, tier=TIER, strs=[], ints=[], budget=20 if TIER == 'quick' else 120, why='bounded'))
        bounded.append(dict(name=fn.__name__, doc=(fn.__doc__ or '').strip(), **{k: v[k] for k in v if k != 'violation'}))
        if v.get('violation'):
            violation = dict(kind='concrete', by=fn.__name__, **v['violation'])
    if refuted or undec:
        searched = search(pid, spec, refuted + undec, 60 if TIER == 'quick' else 300, 'refuted' if refuted else 'undecided')
        if searched['violation']:
            violation = dict(kind='concrete', **searched['violation'])
    line = None
    replay = os.path.join(VERIF, 'replay', pid + '.json')
    if os.path.exists(replay):
        os.unlink(replay)
    if violation or refuted:
        with open(replay, 'w') as f:
            json.dump(dict(property=pid, concrete=violation, search=searched,
                           failed=[dict(function=r['target'], contract=r['contract'], error=r['error'],
                                        obligations=[o for o in r['obligations'] if o['failed']]) for r in refuted + undec],
                           rerun=f'cd /verif && ./check {pid}'), f, indent=1, default=str)
        line = f'VIOLATION property={pid} replay={replay}'
        if not violation:
            line += ' no-failing-input-found'
    proved = not refuted and not undec
    assumptions = sorted({a for r in results for a in r['assumes']} | set(spec.get('assumptions', ())))
    trusted = sorted({t for r in results for t in r['trusted']})
    ev = dict(property=pid, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level='proof', wall_s=round(time.time() - t0, 1),
              violations=1 if line else 0, assumptions=assumptions,
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd=f'./check {pid}  (pv VC generator over rustc MIR of /repo, z3 {z3ver()})',
                            trusted_base=['rustc (MIR of the current tree, StateTransform.before)', 'rustdoc type information', 'pv VC generator', 'z3']
                            + ['model: ' + t for t in trusted],
                            verdict='proved' if proved else ('refuted' if refuted else 'bounded only (not proved on this tree)'),
                            functions_under_contract=[dict(function=r['target'], contract=r['contract'], what=r['title'], status=r['status'], error=r['error'],
                                                           paths=r['outcomes'], obligations=[(o['name'], o['proved'], o['n']) for o in r['obligations']],
                                                           inlined=r['inlined'], callee_contracts=r['contracts_used'], loop_invariants=r['loops'], vacuity_covers=r['covers'],
                                                           **({'only_obligations': r['only'], 'other_obligations': r['other_obligations']} if 'only' in r else {}),
                                                           secs=r['secs'], solver_secs=r['solver_secs'], queries=r['queries'],
                                                           **({'cvc5': r['cvc5']} if 'cvc5' in r else {})) for r in results],
                            solver='z3', solver_secs=round(sum(r['solver_secs'] for r in results), 1),
                            extraction_secs=round(x['secs'], 1), bounded_checks=bounded, search=searched))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in results:
        print(f"{r['contract']}: {r['target']}: {r['status']}" + (f" ({r['error'].splitlines()[0]})" if r['error'] else '') + f" {r['secs']}s")
        for o in r['obligations']:
            if o['failed']:
                print(f"   FAILED obligation {o['name']} of {r['target']} ({len(o['failed'])} of {o['n']}): {o['failed'][0]['status']}: {o['failed'][0]['detail'][:300]}")
    for k, t in load_known():
        if k == pid:
            print(f'KNOWN-FINDING: property={pid} {t}')
    print(f'{pid}: {ndis}/{nobl} obligations discharged over {len(results)} contracts' + ('' if proved else '; NOT a proof on this tree'))
    if searched:
        print('   search on the real code:', json.dumps(searched, default=str)[:600])
    if line:
        print(line)
        return 1
    return 0


def z3ver():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except extract.ExtractError as e:
        print('ERROR: the current tree does not build:', e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
