"""Function contracts: one object gives the obligation generator and the replay oracle."""
import ctypes, random, math, time
from . import build
from .spec import *
from .spec import _nr

class NS:
    def __init__(s, d): s.__dict__.update(d)

class FC:
    """contract of one function of the code.
      name        function
      inputs      [(var, lo, hi)]            ranges of the symbolic inputs (the precondition)
      gen(r)      -> dict of inputs          sampler
      setup(ex, st, v) -> args               v: namespace of input terms
      observe(ex, st) -> {clause: value}
      spec(m, v)  -> {clause: value}         the postcondition, as a function of the inputs
      native(lib, v) -> {clause: value}      the same observation on the compiled code
      ranges      {clause: (lo, hi)}
      tol         {clause: (abs, rel, mod)}"""
    inputs = (); ranges = {}; tol = {}; phys = {}; deftol = (1e-9, 1e-9, None); pos = (); ints = ()
    max_paths = 6000; max_visits = 400; npts = 300; nrand = 4000; pre_text = ''; opt = True; contracts = {}
    prog_mods = None; split_fabs = False; cell_exact = True; memclause = True
    replayable = True; hang_is_violation = False; title = None; weight = 1; lib_extra = ''; lib_name = 'native'
    def __init__(s, **k): s.__dict__.update(k)
    def label(s): return s.title or s.name
    def prepare(s): s.library(); s.program()
    def library(s): return build.native(s.lib_extra, s.lib_name)
    def replays_clause(s, obligation): return True
    def tols(s, c): return s.tol.get(c, s.deftol)
    def program(s): return build.program(s.prog_mods, s.opt)
    def filter(s, v): return True
    # ----------------------------------------------------------------- proof
    def verify(s, rep, seed=1):
        t0 = time.time()
        for n in s.pos: POSV.add(n)
        for n in s.ints: INTV.add(n)
        prog = s.program()
        iv = Iv({n: (lo, hi) for n, lo, hi in s.inputs})
        ex = Exec(prog, dict(s.contracts), iv, max_paths=s.max_paths, max_visits=s.max_visits)
        ex.split_fabs = s.split_fabs
        st = ex.new_state()
        v = NS({n: var(n) for n, _, _ in s.inputs})
        dom = Domain(s.gen, seed, s.npts)
        args = s.setup(ex, st, v)
        for pre in s.assume(v): st.signs = st.signs.refine(pre[0], pre[1])
        finals = s.execute(ex, st, args, v)
        rep.t('vcgen', time.time() - t0)
        rep.paths += len(finals)
        rep.inlined |= ex.inlined; rep.contracts |= ex.used_contracts; rep.assumptions |= ex.assumptions
        rep.functions[s.name] = dict(paths=len(finals), instructions=ex.total_steps)
        nclause = 0; feasible = 0
        for f in finals:
            if s.bad_path(rep, f, dom): continue
            nclause += s.compare_path(rep, ex, f, lambda m: s.spec(m, v), dom, iv)
        if nclause == 0: rep.add(s.name + '/nonvacuous', 'undecided', 'no obligation generated')
        s.extra(rep)
        # cover: some sampled input satisfies the precondition and reaches the end
        cov = 0
        for p in dom.points()[:60]:
            for f in finals:
                try:
                    if sat_log(f.signs.log, Num(DefaultEnv(p, 0))): cov += 1; break
                except (BadPoint, KeyError): pass
            if cov: break
        rep.covers.append((s.name, cov))
    def execute(s, ex, st, args, v): return ex.run(st, s.name, args)
    def sequence(s, ex, sts, name, args):
        """run one more function on every state that got this far"""
        bad = [f for f in sts if f.halt]; good = []
        for f in sts:
            if f.halt: continue
            f.halt = None; ex.call(f, s.fn(ex, name), args); good.append(f)
        return bad + ex.resume(good)
    def fn(s, ex, name):
        f = ex.p.fns.get(name)
        for m in ex.p.mods:
            if f is None: f = m.fns.get(name)
        if f is None: raise Unsupported('function %s not found' % name)
        return f
    def bad_path(s, rep, f, dom):
        if f.halt and f.halt[0] == 'violation':
            if f.signs.log and infeasible(f.signs.log, rep, iv=f.signs.iv): rep.add(s.name + '/defined', 'ok', 'path-infeasible')
            else:
                pt = path_point(f.signs.log, dom)
                rep.add(s.name + '/defined', 'failed' if pt or not f.signs.log else 'undecided', 'execution', f.halt[1] + ' at ' + f.halt[2], pt)
            return True
        rep.add(s.name + '/defined', 'ok', 'execution'); return False
    def compare_path(s, rep, ex, f, spec, dom, iv):
        obs = s.observe(ex, f); nclause = 0
        for sg, out in explore(spec, f.signs):
            for c, b in out.items():
                if c not in obs: rep.add('%s/%s' % (s.name, c), 'undecided', 'unobserved'); continue
                at, rt, mod = s.tols(c)
                nclause += 1
                a = obs[c]
                if mod and isinstance(a, T) or mod and isinstance(b, T):
                    a2, b2 = congr(a, b, mod)
                    equal(rep, '%s/%s' % (s.name, c), a2, b2, sg.log, dom, rt, at, mod, s.phys.get(c), iv)
                else: equal(rep, '%s/%s' % (s.name, c), a, b, sg.log, dom, rt, at, mod, s.phys.get(c), iv)
        for c, (lo, hi) in s.ranges.items():
            a = obs.get(c)
            if a is None: continue
            in_range(rep, '%s/%s in [%.6g, %.6g]' % (s.name, c, lo, hi), a, lo, hi, f.signs, dom)
        return nclause
    def assume(s, v): return ()
    def extra(s, rep): pass
    # ----------------------------------------------------------------- replay on the compiled code
    def compare(s, lib, p):
        """None, or (clause, code value, contract value)"""
        v = NS(p)
        if not s.filter(v): return None
        try: want = s.spec(NumM(), v)
        except (OverflowError, ZeroDivisionError, ValueError): return None
        if want is None: return None
        got = s.native(lib, v)
        for c, b in want.items():
            if c not in got: continue
            a = got[c]; at, rt, mod = s.ntols(c, v, want)
            if not close(a, b, at, rt, mod) and not s.excused(p, c, a, b, mod): return (c, a, b)
        for c, (lo, hi) in s.ranges.items():
            if c in got and not (lo <= got[c] <= hi): return (c, got[c], 'a value in [%r, %r]' % (lo, hi))
        return None
    noise_runs = 12
    def excused(s, p, c, a, b, mod):
        """is the difference within what rounding can do at this input? (an ill-conditioned point, or a decision on its edge)"""
        if not isinstance(b, (int, float)) or not s.noise_runs: return False
        _nr.seed(repr(sorted(p.items(), key=lambda q: q[0]))); spread = 0.
        for _ in range(s.noise_runs):
            try: w = s.spec(Noisy(), NS({k: noisy(x) for k, x in p.items()}))
            except (OverflowError, ZeroDivisionError, ValueError): return True
            if w is None or c not in w: return True
            x = w[c]
            if isinstance(x, float) and math.isnan(x): return True
            if close(a, x, *s.tols(c)[:2], mod): return True
            if isinstance(b, float):
                d = abs(x - b); spread = max(spread, abs(d - mod * round(d / mod)) if mod else d)
        d = abs(a - b)
        if mod: d = abs(d - mod * round(d / mod))
        return d <= 20 * spread
    def ntols(s, c, v, want): return s.tols(c)
    def falsify(s, lib, rep, seed, n, points=()):
        """run real code against the contract on given and sampled points; first violation or None"""
        r = random.Random(seed * 7919 + 17)
        k = 0
        for p in list(points):
            if p is None: continue
            try: w = s.compare(lib, {k_: p[k_] for k_ in [q[0] for q in s.inputs] + list(s.extra_inputs()) if k_ in p})
            except AttributeError: continue
            k += 1
            if w: return (p, w)
        for i in range(n):
            p = s.gen(r); k += 1
            w = s.compare(lib, p)
            if w: rep.replays = getattr(rep, 'replays', 0) + k; return (p, w)
        rep.replays = getattr(rep, 'replays', 0) + k
        return None
    def extra_inputs(s): return ()

def close(a, b, at, rt, mod=None):
    if isinstance(b, (str, bytes, tuple, list)) or b is None or isinstance(a, (str, bytes)): return a == b
    if isinstance(b, float) and math.isnan(b): return isinstance(a, float) and math.isnan(a)
    if isinstance(a, float) and math.isnan(a): return False
    if math.isinf(b) or math.isinf(a): return a == b
    d = abs(a - b)
    if mod: d = abs(d - mod * round(d / mod))
    return d <= at + rt * max(abs(a), abs(b))

def congr(a, b, mod):
    """drop integer multiples of mod from both sides"""
    def go(t):
        t = unfmod(lift(t)); c0, at = lin(t)
        r = const(c0)
        for k, c in at.items():
            if isint(k):
                q = float(c) / mod
                if abs(q - round(q)) < 1e-12 * max(1, abs(q)): continue
            r = add(r, mul(const(c), k))
        return r
    def const_mod(x): return x
    x, y = go(a), go(b)
    d = lin(sub(x, y))
    # a constant difference that is a multiple of mod
    if d[0]:
        q = float(d[0]) / mod
        if round(q) != 0 and abs(q - round(q)) < 1e-12: y = add(y, const(d[0]))
    return x, y

def unfmod(t):
    memo = {}
    for s in topo([t]):
        if s.op in ('c', 's', 'v'): r = s
        elif s.op == 'f':
            x = [memo[a.id] for a in s.args[1:]]
            if s.args[0] == 'fmod': r = sub(x[0], mul(x[1], fn('trunc', div(x[0], x[1]))))
            else: r = fn(s.args[0], *x)
        elif s.op == 'neg': r = neg(memo[s.args[0].id])
        else: r = {'+': add, '-': sub, '*': mul, '/': div}[s.op](memo[s.args[0].id], memo[s.args[1].id])
        memo[s.id] = r
    return memo[t.id]

def in_range(rep, clause, a, lo, hi, signs, dom):
    A = lift(a)
    eps = 1e-9 * max(1, abs(lo), abs(hi))
    if isc(A):
        ok = lo - eps <= cval(A) <= hi + eps
        rep.add(clause, 'ok' if ok else 'failed', 'constants', '' if ok else show(A), None if ok else path_point(signs.log, dom)); return
    l, h = (signs.iv or Iv({})).ev(A)
    if l >= lo - eps and h <= hi + eps: rep.add(clause, 'ok', 'interval'); return
    ok = infeasible(signs.log + ((A - const(hi + eps), (1,)),), rep, iv=signs.iv) and infeasible(signs.log + ((A - const(lo - eps), (-1,)),), rep, iv=signs.iv)
    if ok: rep.add(clause, 'ok', 'z3'); return
    for k, p in enumerate(dom.points()):
        num = Num(DefaultEnv(p, k))
        try:
            if not sat_log(signs.log, num): continue
            x = num.ev(A)[0]
        except (BadPoint, KeyError): continue
        if x < lo - eps or x > hi + eps: rep.add(clause, 'failed', 'counterexample', mp.nstr(x, 17), dict(p)); return
    rep.add(clause, 'undecided', 'range', 'not shown: [%g, %g]' % (l, h))

# ------------------------------------------------------------------ small helpers for native calls
D = ctypes.c_double
def dcall(lib, name, res, *args):
    f = getattr(lib, name); f.restype = res
    return f(*args)
def outs(n): return [D() for _ in range(n)]
def ref(x): return ctypes.byref(x)

# ------------------------------------------------------------------ loops of any number of iterations
class LoopFC(FC):
    """contract of a function with one unbounded loop, given as a relational invariant:
      start(m, v)    -> ('cont', state) or ('exit', clauses)   what holds when the loop is reached
      step(m, v, s)  -> ('cont', state) or ('exit', clauses)   what one iteration does to a state
    The verifier finds the memory cells of the code that hold the state when the loop head is reached, forgets every
    cell that the loop modifies (only their relation to the state is kept), and shows that one iteration from there
    leaves the relation intact or leaves the loop with the clauses of `step`."""
    opt = False; mode = None; state_ranges = (); max_spec_iter = 10000; needs_loop = True
    def spec(s, m, v):
        r = s.start(m, v)
        for _ in range(s.max_spec_iter):
            if r[0] == 'exit': return r[1]
            r = s.step(m, v, r[1])
        return None
    def verify(s, rep, seed=1):
        t0 = time.time()
        for n in s.pos: POSV.add(n)
        prog = s.program()
        iv = Iv({**{n: (lo, hi) for n, lo, hi in s.inputs}, **{'loop.%d' % i: r for i, r in enumerate(s.state_ranges)}})
        ex = Exec(prog, dict(s.contracts), iv, max_paths=s.max_paths, max_visits=s.max_visits)
        ex.split_fabs = s.split_fabs; ex.cut = {}
        st = ex.new_state(); v = NS({n: var(n) for n, _, _ in s.inputs})
        def lgen(r):
            p = s.gen(r); k = 0
            try:
                q = s.start(NumM(), NS(p)); n = r.choice((0, 0, 1, 2))
                while q[0] == 'cont' and k < n:
                    q2 = s.step(NumM(), NS(p), q[1]); k += 1
                    if q2[0] != 'cont': break
                    q = q2
                if q[0] == 'cont':
                    for i, x in enumerate(q[1]): p['loop.%d' % i] = x
            except (ValueError, ZeroDivisionError, OverflowError, TypeError): pass
            return p
        dom = Domain(lgen, seed, s.npts)
        args = s.setup(ex, st, v)
        for pre in s.assume(v): st.signs = st.signs.refine(pre[0], pre[1])
        finals = s.execute(ex, st, args, v)
        groups = {}; nclause = 0
        for f in finals:
            if f.halt and f.halt[0] == 'loop': groups.setdefault(id(f.extra[f.halt[1]][0]), (f.halt[1], f.extra[f.halt[1]][0], []))[2].append(f)
        for f in finals:
            if f.halt and f.halt[0] == 'loop': continue
            if any(id(x[0]) in groups for k, x in f.extra.items() if isinstance(x, tuple)): continue   # an exit of the first iteration: covered below
            if s.bad_path(rep, f, dom): continue
            nclause += s.compare_path(rep, ex, f, lambda m: s.exits(s.start(m, v)), dom, iv)
        if not groups and s.needs_loop: rep.add(s.name + '/loop', 'undecided', 'no-loop', 'no loop reached')
        for key_, H1, H2s in groups.values():
            modified = {}
            for H2 in H2s: s.diff(H1, H2, modified)
            for sg, o in explore(lambda m: s.start(m, v), H1.signs):
                rep.add(s.name + '/loop-entry', 'ok' if o[0] == 'cont' else 'failed', 'execution', '' if o[0] == 'cont' else 'the loop is entered where the contract does not', None if o[0] == 'cont' else path_point(sg.log, dom))
                if o[0] == 'cont': s0 = o[1]
            def same(a, x, log=()):
                if not isinstance(a, (T, int, float)): return False
                a, x = lift(a), lift(x)
                return a is x or pit_equal(a, x) or bool(log) and has_sign_fn(a, x) and pit_equal(a, x, tries=600, log=log)
            def related(f, vals, cells, log=()):
                """which state components the cells hold"""
                out = {}
                for cell in cells:
                    a = f.mem[cell[0]].cells.get(cell[1]) if cell[0] in f.mem else None
                    if a is None: continue
                    r = [i for i, x in enumerate(vals) if same(a[1], x, log)]
                    if r: out[cell] = r
                return out
            def mode_of(vals):
                if s.mode is None: return None
                x = lift(vals[s.mode]); return int(cval(x)) if isc(x) else None
            m0 = mode_of(s0); rels = {m0: related(H1, s0, modified)}
            ns = len(s0)
            for rnd in range(10):
                changed = False; grown = False; rounds = {}
                for md in list(rels):
                    rel = rels[md]
                    # one iteration from a state that is arbitrary but for the relation
                    sv = [var('loop.%d' % i) for i in range(ns)]
                    if md is not None: sv[s.mode] = const(md)
                    G = H1.clone()
                    for cell, sz in modified.items():
                        r = rel.get(cell)
                        ival = not isinstance((H1.mem[cell[0]].cells.get(cell[1]) or (0, ZERO))[1], T)
                        if r and len(r) > 1: r = [i for i in r if (i == s.mode) == ival] or r
                        if r and isc(sv[r[0]]): val = int(cval(sv[r[0]])) if ival else sv[r[0]]
                        else:
                            nm = 'loop.%d' % r[0] if r else 'any.%s.%d' % cell
                            if ival: INTV.add(nm)
                            val = var(nm)
                        G.wobj(cell[0]).cells[cell[1]] = (sz, val)
                    ex.force_cut = (key_,)
                    res = ex.resume([G.clone()])
                    ex.force_cut = None
                    rounds[md] = (sv, res)
                    for f in res:
                        if not (f.halt and f.halt[0] == 'loop'): continue
                        m2 = {}; s.diff(G, f, m2)
                        for c, sz in m2.items():
                            if c not in modified: modified[c] = sz; grown = True
                        for sg, o in explore(lambda m: s.step(m, v, sv), f.signs):
                            if o[0] != 'cont': continue
                            md2 = mode_of(o[1])
                            if md2 not in rels: rels[md2] = related(f, o[1], modified, sg.log); changed = True; continue
                            old = rels[md2]; keep = {}
                            for cell, r in old.items():
                                a = f.mem[cell[0]].cells.get(cell[1])
                                k = [i for i in r if a is not None and same(a[1], o[1][i], sg.log)]
                                if k: keep[cell] = k
                            if keep != old: rels[md2] = keep; changed = True
                if grown: rels = {m0: related(H1, s0, modified)}; continue       # more cells to forget: start again
                if not changed: break
            else: rep.add(s.name + '/invariant', 'undecided', 'relation', 'the invariant was not found')
            for md, rel in rels.items():
                have = {i for r in rel.values() for i in r}
                if md is not None: have.add(s.mode)
                for i in range(ns): rep.add('%s/invariant state %d holds at entry and is preserved%s' % (s.name, i, '' if md is None else ' (phase %s)' % md), 'ok' if i in have else 'undecided', 'identity' if i in have else 'relation')
            for md, (sv, res) in rounds.items():
              for f in res:
                if f.halt and f.halt[0] == 'loop':
                    for sg, o in explore(lambda m: s.step(m, v, sv), f.signs):
                        if o[0] == 'exit':
                            if infeasible(sg.log, rep, iv=iv): rep.add(s.name + '/continues', 'ok', 'path-infeasible')
                            else:
                                pt = path_point(sg.log, dom)
                                rep.add(s.name + '/continues', 'failed' if pt else 'undecided', 'counterexample', 'the code goes on where the contract stops', pt)
                        else: rep.add(s.name + '/continues', 'ok', 'execution')
                    continue
                if s.bad_path(rep, f, dom): continue
                for sg, o in explore(lambda m: s.step(m, v, sv), f.signs):
                    if o[0] != 'exit':
                        if infeasible(sg.log, rep, iv=iv): rep.add(s.name + '/stops', 'ok', 'path-infeasible')
                        else:
                            pt = path_point(sg.log, dom)
                            rep.add(s.name + '/stops', 'failed' if pt else 'undecided', 'counterexample', 'the code stops where the contract goes on', pt)
                        continue
                    f2 = f.clone(); f2.signs = sg
                    nclause += s.compare_path(rep, ex, f2, lambda m: o[1], dom, iv)
        rep.t('vcgen', time.time() - t0)
        rep.paths += len(finals); rep.inlined |= ex.inlined; rep.contracts |= ex.used_contracts; rep.assumptions |= ex.assumptions
        rep.functions[s.name] = dict(paths=len(finals), instructions=ex.total_steps)
        if nclause == 0: rep.add(s.name + '/nonvacuous', 'undecided', 'no obligation generated')
        s.extra(rep)
        rep.covers.append((s.name, nclause))
    def exits(s, r):
        if r[0] != 'exit': return {'reaches the loop': ONE}
        return r[1]
    def diff(s, A, B, out):
        """cells of B whose value differs from A"""
        for oid, o in B.mem.items():
            if oid not in A.mem: continue
            p = A.mem[oid]
            if p is o: continue
            for off, c in o.cells.items():
                d = p.cells.get(off)
                if d is None or d[0] != c[0] or not (d[1] is c[1] or (not isinstance(c[1], T) and d[1] == c[1])): out[(oid, off)] = c[0]
