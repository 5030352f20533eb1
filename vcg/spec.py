"""Specification language and obligation checking.

A specification is an ordinary Python function over a context M: arithmetic by operators, elementary functions
and comparisons through M.  With SymM it yields terms and splits on undecided comparisons; with NumM it computes
numbers, so one and the same text is the contract that the verifier discharges and the oracle of the replay."""
import math, random, time, sys
from .terms import *
from .exec import *
from . import exec as X
from .llir import Unsupported

class SymM:
    sym = True
    def __init__(s, signs): s.signs = signs
    def sin(s, x): return fn('sin', x)
    def cos(s, x): return fn('cos', x)
    def tan(s, x): return fn('tan', x)
    def asin(s, x): return fn('asin', x)
    def acos(s, x): return fn('acos', x)
    def atan(s, x): return fn('atan', x)
    def sqrt(s, x): return fn('sqrt', x)
    def exp(s, x): return fn('exp', x)
    def fabs(s, x): return fn('fabs', x)
    def floor(s, x): return fn('floor', x)
    def trunc(s, x): return fn('trunc', x)
    def atan2(s, y, x): return fn('atan2', y, x)
    def fmod(s, x, y): return fn('fmod', x, y)
    def pow(s, x, y): return fn('pow', x, y)
    def f(s, name, *a): return fn(name, *a)
    def lt(s, a, b): return s.signs.decide(lift(a) - lift(b), (-1,))
    def le(s, a, b): return s.signs.decide(lift(a) - lift(b), (-1, 0))
    def gt(s, a, b): return s.signs.decide(lift(a) - lift(b), (1,))
    def ge(s, a, b): return s.signs.decide(lift(a) - lift(b), (0, 1))
    def eq(s, a, b): return s.signs.decide(lift(a) - lift(b), (0,))
    def ne0(s, x): return bool(x) if isinstance(x, (int, float)) else s.signs.decide(lift(x), (-1, 1))
    def num(s, x): return lift(x)

class NumM:
    """machine doubles"""
    sym = False
    sin = staticmethod(math.sin); cos = staticmethod(math.cos); tan = staticmethod(math.tan)
    asin = staticmethod(lambda x: math.asin(x) if abs(x) <= 1 else math.nan); acos = staticmethod(math.acos); atan = staticmethod(math.atan)
    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else math.nan); fabs = staticmethod(abs); floor = staticmethod(math.floor); trunc = staticmethod(math.trunc)
    atan2 = staticmethod(math.atan2); fmod = staticmethod(math.fmod); exp = staticmethod(math.exp)
    def pow(s, x, y):
        try: r = x ** y
        except (OverflowError, ZeroDivisionError): return math.inf
        return math.nan if isinstance(r, complex) else r
    def lt(s, a, b): return a < b
    def le(s, a, b): return a <= b
    def gt(s, a, b): return a > b
    def ge(s, a, b): return a >= b
    def eq(s, a, b): return a == b
    def ne0(s, x): return x != 0
    def num(s, x): return x

# stochastic arithmetic: the specification with a random rounding error in every operation.  Its spread tells how far two
# correct ways of evaluating the same formula in doubles may lie apart at an ill-conditioned input.
_nr = random.Random(1); _e = 2.0 ** -51
class NF(float):
    def __add__(a, b): return NF(float.__add__(a, b) * (1 + _e * (_nr.random() * 2 - 1))) if isinstance(b, (int, float)) else NotImplemented
    __radd__ = __add__
    def __sub__(a, b): return NF(float.__sub__(a, b) * (1 + _e * (_nr.random() * 2 - 1)))
    def __rsub__(a, b): return NF((b - float(a)) * (1 + _e * (_nr.random() * 2 - 1)))
    def __mul__(a, b): return NF(float.__mul__(a, b) * (1 + _e * (_nr.random() * 2 - 1))) if isinstance(b, (int, float)) else NotImplemented
    __rmul__ = __mul__
    def __truediv__(a, b): return NF(float.__truediv__(a, b) * (1 + _e * (_nr.random() * 2 - 1)))
    def __rtruediv__(a, b): return NF((b / float(a)) * (1 + _e * (_nr.random() * 2 - 1)))
    def __neg__(a): return NF(float.__neg__(a))
    def __abs__(a): return NF(float.__abs__(a))
    def __pow__(a, b): return NF(float.__pow__(float(a), b) * (1 + _e * (_nr.random() * 2 - 1)))
    __slots__ = ()
def noisy(x):
    if isinstance(x, float): return NF(x)
    if isinstance(x, list): return [noisy(y) for y in x]
    return x
class Noisy(NumM):
    """NumM with rounding noise"""
    def _w(f):
        def g(*a):
            r = f(*[float(x) for x in a])
            return NF(r * (1 + _e * (_nr.random() * 2 - 1)))
        return staticmethod(g)
    sin = _w(math.sin); cos = _w(math.cos); tan = _w(math.tan); atan = _w(math.atan); atan2 = _w(math.atan2); exp = _w(math.exp)
    asin = _w(lambda x: math.asin(x) if abs(x) <= 1 else math.nan); acos = _w(lambda x: math.acos(x) if abs(x) <= 1 else math.nan)
    sqrt = _w(lambda x: math.sqrt(x) if x >= 0 else math.nan); fabs = staticmethod(lambda x: NF(abs(x)))
    fmod = staticmethod(lambda x, y: NF(math.fmod(x, y))); floor = staticmethod(lambda x: NF(math.floor(x))); trunc = staticmethod(lambda x: NF(math.trunc(x)))
    def pow(s, x, y): return NF(NumM.pow(s, float(x), float(y)) * (1 + _e * (_nr.random() * 2 - 1)))
    def num(s, x): return NF(x)

def explore(run, signs, limit=3000):
    """all outcomes of a specification under the given signs: [(signs, outcome)]"""
    out = []; work = [signs]
    while work:
        sg = work.pop()
        try: out.append((sg, run(SymM(sg))))
        except NeedDecide as nd:
            for al in (nd.true, ALL - frozenset(nd.true)):
                r = sg.refine(nd.t, al)
                if r is not None: work.append(r)
        if len(out) + len(work) > limit: raise PathLimit('specification has too many paths')
    return out

class Obl:
    """one obligation of one clause on one path"""
    __slots__ = ('clause', 'status', 'how', 'detail', 'point')
    def __init__(s, clause, status, how='', detail='', point=None):
        s.clause = clause; s.status = status; s.how = how; s.detail = detail; s.point = point

class Report:
    def __init__(s):
        s.obls = []; s.functions = {}; s.assumptions = set(); s.solver = {}; s.paths = 0; s.notes = []; s.inlined = set(); s.contracts = set(); s.t0 = time.time()
        s.covers = []
    def add(s, *a, **k): s.obls.append(Obl(*a, **k))
    @property
    def failed(s): return [o for o in s.obls if o.status == 'failed']
    @property
    def undecided(s): return [o for o in s.obls if o.status == 'undecided']
    @property
    def discharged(s): return [o for o in s.obls if o.status == 'ok']
    def t(s, name, dt): s.solver[name] = s.solver.get(name, 0.0) + dt

def sat_log(log, num):
    """does a numeric evaluator satisfy the path condition? (margin: the value closest to a decision boundary)"""
    for t, al in log:
        v = num.ev(t)[0]
        sg = (v > 0) - (v < 0)
        if sg not in al: return False
    return True

class Domain:
    """sampler of input points: dict name -> python float/int"""
    def __init__(s, gen, seed=0, n=400):
        s.gen = gen; s.seed = seed; s.n = n; s._pts = None
    def points(s):
        if s._pts is None:
            r = random.Random(s.seed)
            s._pts = [s.gen(r) for _ in range(s.n)]
        return s._pts

class DefaultEnv(dict):
    """values for variables that the domain does not name (fresh loop variables, uninterpreted results)"""
    def __init__(s, d, seed): dict.__init__(s, d); s.seed = seed
    def __missing__(s, k):
        v = random.Random('%s/%s' % (s.seed, k)).uniform(-3, 3); s[k] = v; return v

def dist(x, y, mod):
    d = abs(x - y)
    if mod: d = abs(d - mod * mp.nint(d / mod))
    return d

def within(A, B, tol, log, iv, rep):
    d = sub(A, B)
    lo, hi = (iv or Iv({})).ev(d)
    if -tol <= lo and hi <= tol: return 'interval'
    if infeasible(log + ((d - const(tol), (1,)),), rep, iv=iv) and infeasible(log + ((d + const(tol), (-1,)),), rep, iv=iv): return 'z3'
    return None

def equal(rep, clause, a, b, log, dom, tol=1e-9, abstol=1e-9, mod=None, phys=None, iv=None):
    """obligation a == b on the path `log`; a from the code, b from the specification"""
    if not isinstance(a, T):
        if a is UNDEF:
            pt = path_point(log, dom)
            if pt is None and log and infeasible(log, rep, iv=iv): rep.add(clause, 'ok', 'path-infeasible'); return
            rep.add(clause, 'failed' if pt or not log else 'undecided', 'undef', 'the code leaves this value undefined', pt); return
        if isinstance(a, Ptr) or a is None: 
            rep.add(clause, 'ok' if a == b else 'failed', 'trivial', '%r / %r' % (a, b)); return
    A, B = lift(a), lift(b)
    if A is B: rep.add(clause, 'ok', 'syntactic'); return
    for t, al in log:                      # equalities decided on this path
        if al == frozenset((0,)):
            c0, at = lin(t)
            if len(at) == 1:
                k, = at; m_ = {k.id: const(-c0 / at[k])}
                A, B = subst_terms(A, m_), subst_terms(B, m_)
    if A is B: rep.add(clause, 'ok', 'syntactic'); return
    if isc(A) and isc(B):
        va, vb = cval(A), cval(B)
        if abs(va - vb) <= abstol * 1e-3 + Fraction(tol) * abs(vb) / 1000: rep.add(clause, 'ok', 'constants'); return
        pt = path_point(log, dom)
        if pt is None and log:
            if infeasible(log, rep, iv=iv): rep.add(clause, 'ok', 'path-infeasible'); return
            rep.add(clause, 'undecided', 'no-point', '%s /= %s' % (show(A), show(B))); return
        rep.add(clause, 'failed', 'constants', '%s /= %s' % (show(A), show(B)), pt); return
    t0 = time.time()
    r = pit_equal(A, B)
    if not r and log and has_sign_fn(A, B): r = pit_equal(A, B, tries=800, log=log)
    rep.t('pit', time.time() - t0)
    if r: rep.add(clause, 'ok', 'identity'); return
    if phys is not None:
        how = within(A, B, phys, log, iv, rep)
        if how: rep.add(clause, 'ok', how); return
    t0 = time.time()
    # analytic identity up to the rounding of folded constants: all points, path condition ignored
    good = 0; bad = None; evaluated = []
    vs = variables(A, None, None) | variables(B, None, None)
    for k, p in enumerate(dom.points()):
        num = Num(DefaultEnv(p, k))
        try: x, y = num.ev(A, B)
        except BadPoint: continue
        except KeyError as e: break
        d = dist(x, y, mod)
        if d <= abstol * 1e-3 + tol * 1e-3 * (abs(x) + abs(y)): good += 1
        else: evaluated.append((num, p, x, y))
        if good >= 24 and not evaluated: break
        if len(evaluated) >= 40 and good == 0 and not log: break
    rep.t('numeric', time.time() - t0)
    if not evaluated and good >= 12: rep.add(clause, 'ok', 'numeric-identity'); return
    t0 = time.time()
    feas = 0
    for num, p, x, y in evaluated:
        try: ok = sat_log(log, num)
        except BadPoint: continue
        if ok:
            d = dist(x, y, mod)
            if d > abstol + tol * (abs(x) + abs(y)):
                rep.t('numeric', time.time() - t0)
                rep.add(clause, 'failed', 'counterexample', 'code %s, contract %s' % (mp.nstr(x, 17), mp.nstr(y, 17)), dict(p)); return
            feas += 1
    # points of this path
    n = 0
    for k, p in enumerate(dom.points()):
        num = Num(DefaultEnv(p, k))
        try:
            if not sat_log(log, num): continue
            x, y = num.ev(A, B)
        except (BadPoint, KeyError): continue
        n += 1
        d = dist(x, y, mod)
        if d > abstol + tol * (abs(x) + abs(y)):
            rep.t('numeric', time.time() - t0)
            rep.add(clause, 'failed', 'counterexample', 'code %s, contract %s' % (mp.nstr(x, 17), mp.nstr(y, 17)), dict(p)); return
    rep.t('numeric', time.time() - t0)
    if n >= 8: rep.add(clause, 'ok', 'numeric-identity-on-path'); return
    if infeasible(log, rep, iv=iv): rep.add(clause, 'ok', 'path-infeasible'); return
    rep.add(clause, 'undecided', 'no-point', '%d points on the path; terms differ' % n)

def path_point(log, dom):
    for k, p in enumerate(dom.points()):
        try:
            if sat_log(log, Num(DefaultEnv(p, k))): return dict(p)
        except (BadPoint, KeyError): pass
    return None

def infeasible_lin(log, iv, timeout=5000):
    """the same question with every nonlinear subterm replaced by an unknown within its interval"""
    import z3
    s = z3.Solver(); s.set('timeout', timeout); atoms = {}
    def tr(t):
        c0, at = lin(t); r = z3.RealVal(str(c0))
        for a, c in at.items():
            if a.id not in atoms:
                z = z3.Real('a%d' % a.id); atoms[a.id] = z
                lo, hi = iv.ev(a)
                if math.isfinite(lo): s.add(z >= z3.RealVal(repr(lo)))
                if math.isfinite(hi): s.add(z <= z3.RealVal(repr(hi)))
                if isint(a): s.add(z == z3.ToReal(z3.Int('i%d' % a.id)))
                if a.op == 'f' and a.args[0] in ('floor', 'trunc'):
                    x = tr(a.args[1])
                    fl = z3.And(z <= x, x < z + 1)
                    if a.args[0] == 'floor': s.add(fl)
                    else: s.add(z3.If(x >= 0, fl, z3.And(z >= x, x > z - 1)))
                elif a.op == 'f' and a.args[0] == 'fabs':
                    x = tr(a.args[1]); s.add(z == z3.If(x >= 0, x, -x))
            r = r + z3.RealVal(str(c)) * atoms[a.id]
        return r
    for t, al in log:
        z = tr(t); s.add(z3.Or([(z < 0) if k == -1 else (z == 0) if k == 0 else (z > 0) for k in al]))
    return s.check() == z3.unsat

def infeasible(log, rep=None, timeout=10000, iv=None):
    """is the path condition unsatisfiable? (z3, functions uninterpreted with range axioms)"""
    import z3
    t0 = time.time()
    if iv is not None:
        for t, al in log:          # excluded by intervals, up to rounding at an end point (an angle of 90 degrees is not > 90)
            lo, hi = iv.ev(t)
            if al == frozenset((1,)) and hi <= 1e-12 * max(1., abs(lo)) and math.isfinite(lo): return True
            if al == frozenset((-1,)) and lo >= -1e-12 * max(1., abs(hi)) and math.isfinite(hi): return True
    if iv is not None and infeasible_lin(log, iv): 
        if rep is not None: rep.t('z3', time.time() - t0)
        return True
    s = z3.Solver(); s.set('timeout', timeout)
    trig = {}
    memo = {}; cnt = [0]; ax = []
    def tr(t0_):
        for t in topo([t0_]):
            if t.id in memo: continue
            a = t.args
            if t.op == 'c': r = z3.RealVal(str(a[0]))
            elif t.op == 'v': r = z3.Real('v_' + a[0])
            elif t.op == 's': r = z3.Real('s_' + a[0])
            elif t.op == '+': r = memo[a[0].id] + memo[a[1].id]
            elif t.op == '-': r = memo[a[0].id] - memo[a[1].id]
            elif t.op == '*': r = memo[a[0].id] * memo[a[1].id]
            elif t.op == '/':
                r = z3.Real('q_%d' % t.id); ax.append(z3.Implies(memo[a[1].id] != 0, r * memo[a[1].id] == memo[a[0].id]))
            elif t.op == 'neg': r = -memo[a[0].id]
            else:
                f = a[0]; x = [memo[k.id] for k in a[1:]]
                if f == 'fabs': r = z3.If(x[0] >= 0, x[0], -x[0])
                elif f == 'floor': r = z3.ToReal(z3.ToInt(x[0]))
                elif f == 'trunc': r = z3.If(x[0] >= 0, z3.ToReal(z3.ToInt(x[0])), -z3.ToReal(z3.ToInt(-x[0])))
                else:
                    r = z3.Real('f_%d' % t.id)
                    if f in ('sin', 'cos'):
                        ax.append(z3.And(r >= -1, r <= 1)); trig.setdefault(a[1].id, {})[f] = r
                        if len(trig[a[1].id]) == 2: ax.append(trig[a[1].id]['sin'] * trig[a[1].id]['sin'] + trig[a[1].id]['cos'] * trig[a[1].id]['cos'] == 1)
                    if f == 'sqrt': ax.append(z3.And(r >= 0, z3.Implies(x[0] >= 0, r * r == x[0])))
                    if f in ('asin', 'atan'): ax.append(z3.And(r >= -1.5707963267948968, r <= 1.5707963267948968, z3.Implies(x[0] >= 0, r >= 0), z3.Implies(x[0] <= 0, r <= 0)))
                    if f == 'acos': ax.append(z3.And(r >= 0, r <= 3.1415926535897936))
                    if f == 'atan2': ax.append(z3.And(r >= -3.1415926535897936, r <= 3.1415926535897936))
                    if f == 'fmod' and isc(a[2]) and cval(a[2]) > 0:
                        y = x[1]; ax.append(z3.And(r > -y, r < y, z3.Implies(x[0] >= 0, r >= 0), z3.Implies(x[0] <= 0, r <= 0)))
            memo[t.id] = r
        return memo[t0_.id]
    for t, al in log:
        z = tr(t)
        s.add(z3.Or([(z < 0) if k == -1 else (z == 0) if k == 0 else (z > 0) for k in al]))
    for a in ax: s.add(a)
    if iv is not None:
        for n, (lo, hi) in iv.r.items():
            z = z3.Real('v_' + n); s.add(z >= z3.RealVal(repr(float(lo))), z <= z3.RealVal(repr(float(hi))))
        for t, al in log:
            for n in variables(t):
                if n in INTV: s.add(z3.IsInt(z3.Real('v_' + n)))
    r = s.check()
    if rep is not None: rep.t('z3', time.time() - t0)
    return r == z3.unsat
