#!/usr/bin/env python3-vt
"""Decides one property: discharges every obligation of its contracts on the current sources of /repo, replays
counterexamples and sampled inputs on the compiled code, writes evidence/<id>.json.
usage: check.py <property id> [--tier quick|thorough]"""
import sys, os, json, time, importlib, multiprocessing as mpp, mmap, traceback, signal, ctypes
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); os.chdir(HERE)
sys.setrecursionlimit(100000)
from vcg import build

PARTS = {  # property -> [(module, list name)]
    'C01': ['healpix'], 'C02': ['healpix'], 'C03': ['healpix'],
    'C04': ['tle'], 'C05': ['tle'], 'C06': ['tle'], 'C07': ['dates'],
    'C08': ['models'], 'C09': ['models'], 'C10': ['models'], 'C11': ['models'], 'C12': ['models'], 'C13': ['models'],
    'C14': ['astro'], 'C15': ['astro'], 'C16': ['astro'], 'C17': ['astro'], 'C18': ['astro'], 'C19': ['astro'], 'C20': ['astro'],
    'C21': ['tools'], 'C22': ['tools'], 'C23': ['tools'], 'C24': ['tools'], 'C25': ['tools']}

def child(fnc, arg, conn):
    os.setpgid(0, 0)
    try: r = fnc(arg)
    except build.BuildError as e: r = dict(error='build', detail=str(e))
    except MemoryError: r = dict(error='memory')
    except BaseException as e: r = dict(error=type(e).__name__, detail=str(e)[:500], tb=traceback.format_exc()[-3000:])
    try: conn.send(r)
    except Exception as e: conn.send(dict(error='send', detail=str(e)))
    conn.close()
    os._exit(0)

def jobs_run(jobs, par=8):
    """jobs: [(key, function, argument, time limit)] each in a process of its own -> {key: result}"""
    ctx = mpp.get_context('fork'); out = {}; todo = list(jobs); live = []
    while todo or live:
        while todo and len(live) < par:
            k, f, a, lim = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(f, a, w)); p.start(); w.close()
            live.append((k, p, r, time.time() + lim))
        for it in list(live):
            k, p, r, end = it
            done = False
            if r.poll(0.02):
                try: out[k] = r.recv()
                except EOFError: out[k] = None
                done = True
            elif not p.is_alive(): out[k] = None; done = True
            elif time.time() > end: out[k] = dict(error='timeout'); done = True
            if done:
                if p.is_alive() and out[k] is not None and 'error' in out[k] and out[k]['error'] == 'timeout':
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: p.kill()
                p.join(5)
                if out[k] is None: out[k] = dict(error='crash', code=p.exitcode)
                live.remove(it)
    return out

# ------------------------------------------------------------------ contracts: proof and replay
def prove(arg):
    from vcg.spec import Report
    c, seed, tier = arg
    rep = Report(); t0 = time.time(); err = None
    try: c.verify(rep, seed)
    except build.BuildError: raise
    except Exception as e: err = '%s: %s' % (type(e).__name__, str(e)[:300]); tb = traceback.format_exc()[-1500:]
    d = dict(obls=[(o.clause, o.status, o.how, o.detail, o.point) for o in rep.obls], functions=rep.functions, assumptions=sorted(rep.assumptions),
             solver=rep.solver, paths=rep.paths, inlined=sorted(rep.inlined), contracts=sorted(rep.contracts), covers=rep.covers, wall=time.time() - t0)
    if err: d['unsupported'] = err; d['tb'] = tb
    return d

class Tracker:
    """the current replay input, readable by the parent after a crash"""
    def __init__(s): s.m = mmap.mmap(-1, 65536)
    def set(s, p):
        b = repr(p).encode()[:65000]; s.m.seek(0); s.m.write(len(b).to_bytes(4, 'little') + b)
    def get(s):
        s.m.seek(0); n = int.from_bytes(s.m.read(4), 'little'); return s.m.read(n).decode(errors='replace')

def replay(arg):
    from vcg.spec import Report
    c, seed, n, points, tr = arg
    lib = c.library()
    cmp = c.compare
    def compare(lib, p): tr.set(p); return cmp(lib, p)
    c.compare = compare
    rep = Report()
    w = c.falsify(lib, rep, seed, n, points)
    return dict(n=getattr(rep, 'replays', 0), w=w, distinct=getattr(rep, 'distinct', None), sample=c.gen(__import__('random').Random(seed)))

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); thorough = tier == 'thorough'
    man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}.get(pid, {}) if os.path.exists('MANIFEST.json') else {}
    parts = []
    for m in PARTS[pid]:
        parts += getattr(importlib.import_module('specs.' + m), pid)
    build.tmp()
    try: pre(parts)
    except build.BuildError as e:
        print('ERROR the current tree does not build: ' + str(e)[-1500:]); sys.exit(2)
    limit = 3000 if thorough else 420
    fcs = [c for c in parts if not hasattr(c, 'run')]
    custom = [c for c in parts if hasattr(c, 'run')]
    jobs = [(('cu', i), custom_run, (c, seed, tier), getattr(c, 'limit', limit)) for i, c in enumerate(custom)]
    jobs += [(('pr', i), prove, (c, seed, tier), limit) for i, c in enumerate(fcs)]
    # sampled replays run beside the proofs; counterexamples are replayed afterwards
    trs = [Tracker() for _ in fcs]
    for i, c in enumerate(fcs):
        if c.replayable: jobs.append((('re', i), replay, (c, seed, c.nrand * (20 if thorough else 1), (), trs[i]), limit))
    jobs.sort(key=lambda j: -getattr(j[2][0], 'weight', 1))
    res = jobs_run(jobs)
    viol = []; obls = []; functions = {}; solver = {}; assumptions = set(); notes = []; covers = []; evals = 0; samples = []; inl = set(); contr = set(); spur = 0
    backends = {}; bounded = []
    for i, c in enumerate(fcs):
        r = res[('pr', i)]
        fail = []
        if 'error' in r and 'obls' not in r:
            obls.append((c.name + '/proof', 'undecided', r['error'], str(r.get('detail', '')))); notes.append('%s: proof not completed (%s %s)' % (c.label(), r['error'], r.get('detail', '')))
            if r['error'] == 'build': print('ERROR ' + r['detail'][-1500:]); sys.exit(2)
        else:
            for cl, stt, how, det, pt in r['obls']:
                obls.append((cl, stt, how, det))
                if stt == 'failed': fail.append((cl, how, det, pt))
            functions.update({(c.label() if k == c.name else k): v for k, v in r['functions'].items()})
            for k, v in r['solver'].items(): solver[k] = solver.get(k, 0) + v
            assumptions |= set(r['assumptions']); covers += r['covers']; inl |= set(r['inlined']); contr |= set(r['contracts'])
            if 'unsupported' in r:
                obls.append((c.name + '/proof', 'undecided', 'engine', r['unsupported'])); notes.append('%s: %s' % (c.label(), r['unsupported']))
                if os.environ.get('VERIF_DEBUG'): print(r['tb'])
        if any(o[0].startswith(c.name + '/') and o[1] == 'undecided' for o in obls): bounded.append(c.label())
        rr = res.get(('re', i))
        w = None
        if rr is not None:
            w, n = replay_result(c, rr, trs[i]); evals += n
            if rr.get('sample') is not None and len(samples) < 6: samples.append({c.label(): rr['sample']})
            if rr.get('error') and not w: notes.append('%s: replay did not complete (%s %s)' % (c.label(), rr['error'], rr.get('detail', '')))
        if not w and fail and c.replayable:
            pts = [f[3] for f in fail if f[3]][:200]
            tr = Tracker()
            rr = jobs_run([('x', replay, (c, seed + 1, c.nrand * 10, pts, tr), limit)])['x']
            w, n = replay_result(c, rr, tr); evals += n
        if w:
            p, (cl, a, b) = w
            viol.append(dict(contract=c.label(), clause=cl, input=p, code=repr(a), contract_value=repr(b), obligation=[f[0] for f in fail if f[0].endswith('/' + str(cl))][:1] or [f[0] for f in fail][:1], replayed=True))
        elif fail:
            real = [f for f in fail if not (c.replayable and f[1] in ('counterexample', 'constants') and f[3] is not None and c.replays_clause(f[0]))]
            if real:
                cl, how, det, pt = real[0]
                viol.append(dict(contract=c.label(), clause=cl, input=pt, code=det, contract_value='', obligation=[f[0] for f in real][:10], how=how, replayed=False))
            else:
                spur += len(fail); notes.append('%s: %d counterexamples in real arithmetic not reproduced by the compiled code (rounding): %s' % (c.label(), len(fail), fail[0][:3]))
    for i, c in enumerate(custom):
        r = res[('cu', i)]
        if 'error' in r and 'obls' not in r:
            obls.append((c.label() + '/proof', 'undecided', r['error'], str(r.get('detail', ''))))
            notes.append('%s: not completed (%s %s)' % (c.label(), r['error'], r.get('detail', '')))
            if os.environ.get('VERIF_DEBUG'): print(r.get('tb'))
            if r['error'] == 'build': print('ERROR ' + r['detail'][-1500:]); sys.exit(2)
            continue
        obls += [tuple(o[:4]) for o in r['obls']]; functions.update(r.get('functions', {})); viol += r.get('violations', [])
        for k, v in r.get('solver', {}).items(): solver[k] = solver.get(k, 0) + v
        assumptions |= set(r.get('assumptions', ())); notes += r.get('notes', []); evals += r.get('evaluations', 0); samples += r.get('samples', [])[:4]
        bounded += r.get('bounded', []); covers += r.get('covers', [])
        if any(o[1] == 'undecided' for o in r['obls']): bounded.append(c.label())
    NUMERIC = ('numeric-identity', 'numeric-identity-on-path')
    for o in obls:
        if o[1] == 'ok': backends[o[2]] = backends.get(o[2], 0) + 1
    nd = sum(1 for o in obls if o[1] == 'ok' and o[2] not in NUMERIC and not o[2].startswith('bounded')); nnum = sum(1 for o in obls if o[1] == 'ok' and o[2] in NUMERIC)
    level = man.get('level', 'proof')
    und = {}
    for o in obls:
        if o[1] == 'undecided': und.setdefault('%s [%s] %s' % (o[0], o[2], o[3][:200]), 0); und['%s [%s] %s' % (o[0], o[2], o[3][:200])] += 1
    cov = dict(obligations=len(obls), discharged=nd, checked_numerically_not_proved=nnum, undecided=und,
               backends=backends, solver_seconds={k: round(v, 2) for k, v in solver.items()}, functions_under_contract=functions,
               functions_inlined=sorted(inl), callee_contracts_used=sorted(contr),
               checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier), trusted_base=TRUSTED + man.get('_trusted', []),
               evaluations=evals, distinct_nontrivial=evals, rule='inputs sampled from the precondition (boundary values over-represented), each run through the compiled code of /repo and the contract; all sampled inputs satisfy the precondition',
               samples=samples or ['no sampled run'], bounded=sorted(set(bounded)), covers=[list(map(str, x)) for x in covers], notes=notes,
               explanation='obligations: clauses of contracts on every execution path of the listed functions, generated from the current source; bounded: contracts with obligations the prover left open, for which only the sampled replays speak')
    if level in ('exploration',): pass
    known = [l.split(None, 2) for l in open('KNOWN_FINDINGS')] if os.path.exists('KNOWN_FINDINGS') else []
    os.makedirs('evidence', exist_ok=True)
    out = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(out, open('evidence/%s.json' % pid, 'w'), indent=1, default=str)
    print('%s: %d obligations, %d proved, %d numerically checked, %d open; %d replays; %.1f s' % (pid, len(obls), nd, nnum, sum(und.values()), evals, time.time() - t0))
    for n in notes: print('note: ' + str(n)[:400])
    if und and os.environ.get('VERIF_DEBUG'):
        for k, v in und.items(): print('open: %d x %s' % (v, k))
    if os.environ.get('VERIF_DEBUG'):
        import collections
        for k, v in collections.Counter((o[0], o[2]) for o in obls if o[1] == 'ok' and o[2] in NUMERIC).items(): print('numeric: %d x %s' % (v, k))
    viol.sort(key=lambda v: not v['replayed'])
    for k, v in enumerate(viol[:5]):
        os.makedirs('evidence/replay', exist_ok=True)
        path = 'evidence/replay/%s-%d.json' % (pid, k)
        json.dump(v, open(path, 'w'), indent=1, default=str)
        print('failed obligation: %s %s: code %s, contract %s, input %s' % (v['contract'], v['clause'], str(v.get('code'))[:200], str(v.get('contract_value'))[:200], str(v.get('input'))[:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if v['replayed'] else ' no-failing-input-found'))
    sys.exit(1 if viol else 0)

TRUSTED = ['clang 18 -O0 front end (C to LLVM IR)', 'vcg/ (VC generator and term normaliser of this framework)', 'polynomial identity testing modulo 61-bit primes (error < 2^-150 per obligation)',
           'z3 4.8 for path feasibility', 'machine double arithmetic treated as real arithmetic (rounding checked only by the sampled replays)', 'libm functions treated as the mathematical functions']

def replay_result(c, rr, tr):
    if rr.get('error') in ('crash', 'timeout'):
        if rr['error'] == 'timeout' and not c.hang_is_violation: return None, 0
        return ((tr.get(), ('terminates' if rr['error'] == 'timeout' else 'no crash', 'crash (exit code %s)' % rr.get('code') if rr['error'] == 'crash' else 'no return', 'normal return'))), 1
    if rr.get('error'): return None, 0
    return rr['w'], rr['n']

def custom_run(arg):
    c, seed, tier = arg
    return c.run(seed, tier)

def pre(parts):
    """compile once, before the processes are forked"""
    for c in parts:
        if hasattr(c, 'prepare'): c.prepare()

if __name__ == '__main__': main()
