"""Symbolic execution of LLVM IR over the integers and reals of z3, for the integer kernels (HEALPix).
Machine integers are mathematical integers with the obligation that nothing overflows; doubles are reals, or, where
`rounding` is set, reals with an unknown relative error of at most 2^-53 per operation."""
import time, math, struct
from fractions import Fraction
import z3
from .llir import Unsupported

def isconc(x): return isinstance(x, (int, Fraction)) and not isinstance(x, bool)
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def zr(x):
    if isinstance(x, Fraction): return z3.Q(x.numerator, x.denominator)
    if isinstance(x, int): return z3.RealVal(x)
    return x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x

class Pt:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off

class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'regs', 'dst', 'visits')
    def __init__(s, fn): s.fn = fn; s.block = fn.order[0]; s.prev = None; s.ip = 0; s.regs = {}; s.dst = None; s.visits = 0
    def copy(s):
        f = Frame(s.fn); f.block, f.prev, f.ip, f.regs, f.dst, f.visits = s.block, s.prev, s.ip, dict(s.regs), s.dst, s.visits; return f

class St:
    def __init__(s): s.frames = []; s.mem = {}; s.pc = []; s.pend = []; s.ret = None; s.halt = None; s.n = 0; s.nonneg = {}; s.rec = None
    def copy(s):
        t = St(); t.frames = [f.copy() for f in s.frames]; t.mem = {k: dict(v) for k, v in s.mem.items()}; t.pc = list(s.pc); t.pend = list(s.pend); t.n = s.n; t.nonneg = dict(s.nonneg); t.rec = s.rec; return t

class Linear:
    """linear abstraction: every product of two or more unknowns becomes one unknown (sound for proving unsatisfiability)"""
    def __init__(s): s.map = {}; s.memo = {}; s.keep = []
    def __call__(s, e): return s.walk(z3.simplify(e, som=True))
    def mono(s, fs, real):
        fs = sorted(fs, key=lambda f: f.get_id())
        if real and all(z3.is_app_of(f, z3.Z3_OP_TO_REAL) for f in fs): return z3.ToReal(s.mono([f.arg(0) for f in fs], False))
        k = tuple(f.get_id() for f in fs)
        if k not in s.map: s.keep.append(fs); s.map[k] = (z3.Real if real else z3.Int)('mono!%d' % len(s.map))
        return s.map[k]
    def walk(s, e):
        k = e.get_id()
        if k in s.memo: return s.memo[k][0]
        r = e
        if z3.is_mul(e):
            co, fs, st = [], [], list(e.children())
            while st:
                x = st.pop()
                if z3.is_mul(x): st += x.children()
                elif z3.is_int_value(x) or z3.is_rational_value(x): co.append(x)
                elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)) and 1 <= x.arg(1).as_long() < 9: fs += [x.arg(0)] * x.arg(1).as_long()
                elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_rational_value(x.arg(1)) and x.arg(1).denominator_as_long() == 1 and 1 <= x.arg(1).numerator_as_long() < 9: fs += [x.arg(0)] * x.arg(1).numerator_as_long()
                else: fs.append(x)
            fs = [s.walk(f) for f in fs]
            m = s.mono(fs, z3.is_real(e)) if len(fs) > 1 else fs[0] if fs else None
            for c in co: m = c * m if m is not None else c
            r = m
        elif z3.is_app_of(e, z3.Z3_OP_POWER) and (z3.is_int_value(e.arg(1)) or z3.is_rational_value(e.arg(1))):
            v = e.arg(1).as_fraction() if z3.is_rational_value(e.arg(1)) else Fraction(e.arg(1).as_long())
            if v.denominator == 1 and 1 < v < 9: r = s.mono([s.walk(e.arg(0))] * int(v), z3.is_real(e))
        elif e.num_args(): 
            ch = [s.walk(c) for c in e.children()]
            if any(a.get_id() != b.get_id() for a, b in zip(ch, e.children())): r = e.decl()(*ch) if not z3.is_and(e) and not z3.is_or(e) and not z3.is_add(e) else z3.And(*ch) if z3.is_and(e) else z3.Or(*ch) if z3.is_or(e) else z3.Sum(*ch)
        s.memo[k] = (r, e); return r

class Failed(Exception):
    def __init__(s, what, model): s.what = what; s.model = model

class ZExec:
    def __init__(s, mod, contracts=None, rounding=False, ghosts=(), timeout=20000, maxpaths=3000):
        s.mod = mod; s.contracts = contracts or {}; s.rounding = rounding; s.ghosts = list(ghosts); s.timeout = timeout; s.fresh = 0; s.maxpaths = maxpaths
        s.queries = 0; s.solver_s = 0.; s.nobl = 0; s.undecided = []; s.inlined = set(); s.tables = {}; s.failed = []; s.memo = {}; s.lemmas = []; s.rghosts = []; s.sghosts = []; s.gall = False; s.ftime = 3000; s.qbounds = []; s.ighosts = []; s.fghosts = []; s.consts = {}; s.lattice = False; s.lats = {}; s.lmemo = {}; s.keep = []; s.marks = []; s.aghosts = []
    def fc(s, x): return s.consts.get(float(x), Fraction(x))
    # ------------------------------------------------------------ solver
    def check(s, pc, *extra, timeout=None):
        t = time.time(); so = z3.Solver(); so.set('timeout', timeout or s.timeout); so.add(*[c for c in pc]); so.add(*extra); s.queries += 1
        r = so.check(); s.solver_s += time.time() - t
        return r, (so.model() if r == z3.sat else None)
    def unsat(s, pc, *extra):
        """unsatisfiable already in the linear abstraction"""
        L = Linear(); return s.check([L(c) for c in list(pc) + list(extra)], timeout=min(s.timeout, 6000))[0] == z3.unsat
    def feas(s, pc, c):
        L = Linear(); r, m = s.check([L(x) for x in list(pc) + [c]], timeout=3000)
        if r == z3.unsat or not L.map: return r
        return s.check(pc, c, timeout=s.ftime)[0]
    def refute(s, pc, *extra):
        """z3.unsat, or the answer of the full solver"""
        if s.unsat(pc, *extra): return z3.unsat, None
        return s.check(pc, *extra)
    def proved(s, st, cond):
        if isinstance(cond, bool): return cond
        if z3.is_true(z3.simplify(cond)): return True
        return s.refute(st.pc, z3.Not(cond))[0] == z3.unsat
    def flush(s, st):
        """no pending obligation (overflow, division by zero, index) fails here"""
        if not st.pend: return
        ps, st.pend = st.pend, []
        ps = [(c, w) for c, w in ps if not (isinstance(c, bool) and c)]
        ps = [(c, w) for c, w in ps if not z3.is_true(z3.simplify(zb(c)))]
        s.nobl += len(ps)
        if not ps: return
        r, m = s.refute(st.pc, z3.Or(*[z3.Not(zb(c)) for c, _ in ps]))
        if r == z3.unsat: return
        for c, w in ps:
            r, m = s.refute(st.pc, z3.Not(zb(c)))
            if r == z3.sat and w.startswith('wrap: '): raise Unsupported('unsigned wrap-around ' + w)
            elif r == z3.sat: s.failed.append((w, m, list(st.pc)))
            elif r != z3.unsat: s.undecided.append(w)
        st.pc += [zb(c) for c, _ in ps]
    def new(s, name, real=False):
        s.fresh += 1; n = '%s!%d' % (name, s.fresh); return z3.Real(n) if real else z3.Int(n)
    # ------------------------------------------------------------ memory
    def obj(s, st, name): st.n += 1; k = '%s#%d' % (name, st.n); st.mem[k] = {}; return Pt(k, 0)
    def table(s, name):
        if name not in s.tables:
            t, init, const = s.mod.globals[name]
            if not const: raise Unsupported('global variable ' + name)
            cells = []; s.mod.init_cells(t, init, cells); s.tables[name] = {}
            for off, size, kind, val in cells:
                if kind == 'int': s.tables[name][off] = val
                elif kind == 'op' and val[0] == 'const': s.tables[name][off] = val[1]
                elif kind == 'op' and val[0] == 'fconst': s.tables[name][off] = s.fc(val[1])
                elif kind == 'zero':
                    es = s.mod.ty.size(val[2]) if val[0] == 'arr' else size
                    for i in range(size // es): s.tables[name][off + i * es] = 0
                else: raise Unsupported('initialiser of ' + name)
        return s.tables[name]
    # ------------------------------------------------------------ operands
    def val(s, st, op, t=None):
        k = op[0]
        if k == 'reg': return st.frames[-1].regs[op[1]]
        if k == 'const': return bool(op[1]) if t and t == ('i', 1) else op[1]
        if k == 'fconst': return s.fc(op[1])
        if k == 'glob': return Pt('@' + op[1], 0)
        if k == 'null': return Pt(None, 0)
        if k == 'gepc': return s.gep(st, op[1])
        raise Unsupported('operand %r' % (op,))
    def gep(s, st, g):
        t, base, idx = g; p = s.val(st, base[1]); off = p.off; first = True
        for it, op, _ in idx:
            i = s.val(st, op)
            if first: off = off + i * s.mod.ty.size(t); first = False; continue
            t = s.mod.ty.res(t)
            if t[0] == 'arr': t = t[2]; off = off + i * s.mod.ty.size(t)
            else: o, t = s.mod.ty.field(t, i); off = off + o
        return Pt(p.obj, off)
    def values(s, st, x, limit=64):
        """all values of an integer term on this path"""
        out = []; pc = list(st.pc)
        while len(out) <= limit:
            if s.unsat(pc): return out
            r, m = s.check(pc)
            if r == z3.unsat: return out
            if r != z3.sat: raise Unsupported('cannot enumerate an index')
            v = m.eval(x, model_completion=True).as_long(); out.append(v); pc.append(x != v)
        raise Unsupported('too many values of an index')
    # ------------------------------------------------------------ run
    def start(s, name, args, st=None, pc=()):
        st = st or St(); st.pc += list(pc); s.call(st, s.mod.fns[name], args); return st
    def call(s, st, fn, args):
        f = Frame(fn)
        if len(st.frames) > 30: raise Unsupported('recursion')
        for (t, n, b), a in zip(fn.params, args): f.regs[n] = a
        st.frames.append(f); s.inlined.add(fn.name)
    def run(s, states):
        out = []; work = list(states)
        while work:
            st = work.pop()
            while st.halt is None:
                more = s.step(st)
                if more: work += more
            out.append(st)
            if len(out) + len(work) > s.maxpaths: raise Unsupported('too many paths')
        return [o for o in out if o.halt == 'ret']
    def branch(s, st, c):
        """(state if c, state if not c)"""
        if isinstance(c, bool): return (st, None) if c else (None, st)
        s.flush(st); c = z3.simplify(c)
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        a = s.feas(st.pc, c); b = s.feas(st.pc, z3.Not(c)) if a != z3.unsat else z3.sat
        if b == z3.unsat: return st, None
        if a == z3.unsat: return None, st
        o = st.copy(); st.pc.append(c); o.pc.append(z3.Not(c)); return st, o
    def goto(s, st, b):
        f = st.frames[-1]; f.prev, f.block, f.ip = f.block, b, 0; f.visits += 1
        if f.visits > 4000: raise Unsupported('unbounded loop')
        ins = f.fn.blocks[b]; vals = []
        for i in ins:
            if i[0] != 'phi': break
            for op, src in i[3]:
                if src == f.prev: vals.append((i[1], s.val(st, op, s.mod.ty.res(i[2]))))
        for d, v in vals: f.regs[d] = v
    def rng(s, st, x, bits, what):
        if isconc(x):
            if not -(1 << bits - 1) <= x < (1 << bits - 1): st.pend.append((False, what))
            return
        st.pend.append((z3.And(x >= -(1 << bits - 1), x < (1 << bits - 1)), what))
    def nonneg(s, st, x):
        """x >= 0 holds on this path"""
        if isconc(x): return x >= 0
        k = x.get_id()
        if k not in st.nonneg: st.nonneg[k] = (s.proved(st, x >= 0), x)
        return st.nonneg[k][0]
    def div(s, st, a, b):
        """truncated quotient and remainder; b concrete and positive, or both symbolic and non-negative"""
        if isconc(a) and isconc(b):
            q = abs(a) // abs(b); q = q if (a >= 0) == (b > 0) else -q; return q, a - q * b
        if not isconc(b):
            bs = s.values(st, b, 1) if False else None
            st.pend.append((b != 0, 'division by zero')); s.flush(st)
            if not s.proved(st, b > 0): raise Unsupported('division by a term that may be negative')
        elif b <= 0: raise Unsupported('division by %r' % b)
        za, zb_ = zi(a), zi(b)
        if s.nonneg(st, a): return za / zb_, za % zb_
        q = z3.If(za >= 0, za / zb_, -((-za) / zb_)); return q, za - q * zb_
    def lat(s, x):
        """k such that x is an integer multiple of 2^-k, or None"""
        if isconc(x):
            d = Fraction(x).denominator; return d.bit_length() - 1 if d & (d - 1) == 0 else None
        k = x.get_id()
        if k in s.lats: return s.lats[k]
        if k in s.lmemo: return s.lmemo[k][0]
        r = None
        if z3.is_rational_value(x) or z3.is_int_value(x): r = s.lat(x.as_fraction() if z3.is_rational_value(x) else x.as_long())
        elif z3.is_int(x): r = 0
        elif z3.is_app_of(x, z3.Z3_OP_TO_REAL): r = 0
        elif z3.is_add(x) or z3.is_sub(x): v = [s.lat(c) for c in x.children()]; r = None if None in v else max(v)
        elif z3.is_mul(x): v = [s.lat(c) for c in x.children()]; r = None if None in v else max(0, sum(v))
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS): r = s.lat(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_ITE): v = [s.lat(c) for c in x.children()[1:]]; r = None if None in v else max(v)
        s.lmemo[k] = (r, x); return r
    def rnd(s, st, x, bits=53):
        if not s.rounding and bits == 53 or isconc(x) and x == 0: return x
        if isconc(x): return Fraction(float(x)) if bits == 53 else Fraction(struct.unpack('f', struct.pack('f', float(x)))[0])
        if s.lattice:
            k = s.lat(x)
            if k is not None and s.proved(st, z3.And(x <= z3.RealVal(Fraction(2) ** (bits - k)), x >= -z3.RealVal(Fraction(2) ** (bits - k)))): return x
        x = zr(x); y = s.new('rnd', True); e = z3.Q(1, 2 ** bits)
        if s.lattice:
            for b in (20, 1, 0, -1, -2):
                v = z3.RealVal(Fraction(2) ** b)
                if s.proved(st, z3.Or(x >= v, x <= -v)): s.lats[y.get_id()] = bits - 1 - b; s.keep.append(y); break
            st.pc += [z3.Implies(x >= v, y >= v) for v in s.marks] + [z3.Implies(x <= -v, y <= -v) for v in s.marks] + [z3.Implies(x < v, y <= v) for v in s.marks] + [z3.Implies(x > -v, y >= -v) for v in s.marks]
        if s.nonneg_r(st, x): st.pc += [y >= x * (1 - e), y <= x * (1 + e)]
        else: st.pc += [z3.If(x >= 0, z3.And(y >= x * (1 - e), y <= x * (1 + e)), z3.And(y <= x * (1 - e), y >= x * (1 + e)))]
        return y
    def nonneg_r(s, st, x): return s.proved(st, x >= 0)
    def step(s, st):
        f = st.frames[-1]; ins = f.fn.blocks[f.block][f.ip]; f.ip += 1; op = ins[0]; R = f.regs; where = '%s:%s' % (f.fn.name, f.block)
        if op == 'phi': return
        if op == 'bin':
            _, d, o, t, a, b, fl = ins; a, b = s.val(st, a), s.val(st, b); t = s.mod.ty.res(t)
            if o[0] == 'f':
                if isconc(a) and isconc(b) and t[0] != 'float' and not (o == 'fdiv' and b == 0):
                    R[d] = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: Fraction(a) / b}[o]()
                    if s.rounding: R[d] = s.rnd(st, R[d])
                    return
                x, y = zr(a), zr(b)
                if o == 'fdiv': st.pend.append((y != 0, 'floating division by zero ' + where)); s.flush(st)
                if o not in ('fadd', 'fsub', 'fmul', 'fdiv'): raise Unsupported(o)
                r = x + y if o == 'fadd' else x - y if o == 'fsub' else x * y if o == 'fmul' else x / y
                if o == 'fsub' and s.lattice:
                    xs = z3.simplify(x)
                    for kk, mm in s.memo.items():
                        if kk[0] == 'fmod' and mm[1].get_id() == y.get_id() and mm[2].get_id() == xs.get_id(): r = z3.ToReal(mm[0]) * mm[3]; break     # x - fmod(x,y) is a whole multiple of y
                if o == 'fadd':
                    for g in s.aghosts:
                        if s.lat(r) is not None and s.check(st.pc, r != g, timeout=5000)[0] == z3.unsat: R[d] = g; return
                if o == 'fdiv':
                    for g in s.rghosts:
                        if s.proved(st, r == g): r = g; break
                    else:
                        if s.qbounds and not isconc(b) and not z3.is_rational_value(z3.simplify(y)):
                            x, y = z3.simplify(x), z3.simplify(y); kk = ('quot', x.get_id(), y.get_id())
                            if kk not in s.memo: s.memo[kk] = (s.new('quot', True), x, y)
                            r = s.memo[kk][0]; st.pc.append(r * y == x)
                            if s.proved(st, z3.And(x >= 0, y > 0)):
                                st.pc.append(r >= 0)
                                for q in s.qbounds:
                                    if s.proved(st, x < q * y): st.pc.append(r < q)
                R[d] = s.rnd(st, r, 24 if t[0] == 'float' else 53); return
            n = t[1]
            if n == 1:
                a, b = zb(a if not isconc(a) else bool(a)), zb(b if not isconc(b) else bool(b))
                R[d] = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o](a, b); return
            what = '%s overflow %s' % (o, where)
            if o in ('add', 'sub', 'mul'):
                r = a + b if o == 'add' else a - b if o == 'sub' else a * b
                s.rng(st, r, n, what if 'nsw' in fl else 'wrap: ' + what)
            elif o == 'shl':
                if not isconc(b): raise Unsupported('shift by a term')
                r = a * (1 << b); s.rng(st, r, n, what)
            elif o in ('ashr', 'lshr'):
                if not isconc(b): raise Unsupported('shift by a term')
                if o == 'lshr' and not s.nonneg(st, a): raise Unsupported('logical shift of a negative number')
                r = a >> b if isconc(a) else a / (1 << b)
                r = s.ghost(st, r)
            elif o in ('sdiv', 'srem', 'udiv', 'urem'):
                if o[0] == 'u' and not (s.nonneg(st, a) and s.nonneg(st, b)): raise Unsupported('unsigned division of a negative number')
                if isconc(b) and b == 0: st.pend.append((False, 'division by zero ' + where)); s.flush(st); st.halt = 'dead'; return
                q, m = s.div(st, a, b); r = q if o.endswith('div') else m
                r = s.ghost(st, r)
            elif o in ('and', 'or', 'xor'):
                if isconc(a) and isconc(b): r = a & b if o == 'and' else a | b if o == 'or' else a ^ b
                else:
                    if isconc(a): a, b = b, a
                    if o == 'and' and isconc(b) and b >= 0 and b & (b + 1) == 0: r = a % (b + 1) if b else 0
                    else:
                        forks = []
                        vs = s.values(st, a) if not isconc(a) else [a]
                        for v in vs:
                            for w in (s.values(st, b) if not isconc(b) else [b]):
                                q = st.copy()
                                if not isconc(a): q.pc.append(a == v)
                                if not isconc(b): q.pc.append(b == w)
                                q.frames[-1].regs[d] = v & w if o == 'and' else v | w if o == 'or' else v ^ w; forks.append(q)
                        st.halt = 'forked'; return forks
            else: raise Unsupported(o)
            R[d] = z3.simplify(r) if not isconc(r) else r
            if not isconc(R[d]) and z3.is_int_value(R[d]): R[d] = R[d].as_long()
            return
        if op == 'load':
            t = s.mod.ty.res(ins[2]); p = s.val(st, ins[3][1])
            if p.obj and p.obj.startswith('@'):
                tb = s.table(p.obj[1:])
                if not isconc(p.off):
                    s.flush(st); off = z3.simplify(p.off); forks = []
                    for v in s.values(st, off):
                        if v not in tb: s.failed.append(('index out of the table ' + p.obj + ' ' + where, s.check(st.pc, off == v)[1], list(st.pc))); continue
                        q = st.copy(); q.pc.append(off == v); q.frames[-1].regs[ins[1]] = tb[v]; forks.append(q)
                    st.halt = 'forked'; return forks
                if p.off not in tb: s.failed.append(('index out of the table ' + where, s.check(st.pc)[1], list(st.pc))); st.halt = 'dead'; return
                R[ins[1]] = tb[p.off]; return
            if p.obj not in st.mem or not isconc(p.off) or p.off not in st.mem[p.obj]: raise Unsupported('load of an unknown cell ' + where)
            R[ins[1]] = st.mem[p.obj][p.off]; return
        if op == 'store':
            p = s.val(st, ins[2][1]); v = s.val(st, ins[1][1])
            if p.obj not in st.mem or not isconc(p.off): raise Unsupported('store ' + where)
            st.mem[p.obj][p.off] = v; return
        if op == 'alloca': R[ins[1]] = s.obj(st, ins[1]); return
        if op == 'gep': R[ins[1]] = s.gep(st, ins[2:]); return
        if op == 'fneg': v = s.val(st, ins[3]); R[ins[1]] = -v; return
        if op == 'copy': R[ins[1]] = s.val(st, ins[3]); return
        if op in ('icmp', 'fcmp'):
            _, d, pr, t, a, b = ins; a, b = s.val(st, a), s.val(st, b)
            if isinstance(a, Pt) or isinstance(b, Pt):
                if pr in ('eq', 'ne') and (a.obj is None or b.obj is None or a.obj != b.obj): R[d] = (a.obj == b.obj) == (pr == 'eq'); return
                if a.obj != b.obj: raise Unsupported('comparison of pointers to different objects')
                a, b, pr = a.off, b.off, pr if pr in ('eq', 'ne') else 's' + pr[1:]
            if op == 'icmp' and pr[0] == 'u' and pr not in ('uno', 'une'):
                if not (s.nonneg(st, a) and s.nonneg(st, b)): raise Unsupported('unsigned comparison')
            q = pr[1:] if pr not in ('eq', 'ne') else pr
            x, y = (a, b) if isconc(a) and isconc(b) else (zr(a), zr(b)) if op == 'fcmp' else (zi(a), zi(b))
            if isinstance(x, bool) or isinstance(y, bool) or z3.is_bool(x): raise Unsupported('comparison of booleans') if False else Unsupported('boolean comparison')
            R[d] = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'no': lambda: False, 'rd': lambda: True}[q](); return
        if op == 'cast':
            _, d, o, t, a, t2 = ins; t = s.mod.ty.res(t); t2 = s.mod.ty.res(t2); a = s.val(st, a, t)
            if t == ('i', 1): R[d] = int(a) if isinstance(a, bool) else z3.If(a, z3.IntVal(1), z3.IntVal(0)); return
            if o == 'trunc' and t2 == ('i', 1): R[d] = bool(a & 1) if isconc(a) else (a % 2 == 1); return
            if o == 'sext': R[d] = a; return
            if o == 'zext':
                if not s.nonneg(st, a): raise Unsupported('zero extension of a negative number')
                R[d] = a; return
            if o == 'trunc': s.rng(st, a, t2[1], 'narrowing ' + where); R[d] = a; return
            if o in ('sitofp', 'uitofp'):
                if o[0] == 'u' and not s.nonneg(st, a): raise Unsupported('unsigned conversion')
                R[d] = Fraction(a) if isconc(a) else z3.ToReal(a)
                if t[1] > 53: R[d] = s.rnd(st, R[d])
                return
            if o == 'fptrunc': R[d] = s.rnd(st, a, 24); return
            if o == 'fpext': R[d] = a; return
            if o == 'fptosi':
                if isconc(a): R[d] = int(a)
                else:
                    s.flush(st); a = z3.simplify(a); kk = ('int', a.get_id())
                    if kk not in s.memo: s.memo[kk] = (s.new('int'), a)
                    k = s.memo[kk][0]
                    if s.nonneg_r(st, a): st.pc += [z3.ToReal(k) <= a, a < z3.ToReal(k) + 1, k >= 0]
                    else: st.pc += [z3.If(a >= 0, z3.And(z3.ToReal(k) <= a, a < z3.ToReal(k) + 1), z3.And(z3.ToReal(k) >= a, a > z3.ToReal(k) - 1))]
                    for g in s.ighosts:
                        if s.unsat(st.pc, k != g): k = g; break
                    R[d] = k
                    for lem in s.lemmas: lem(s, st, k, a)
                s.rng(st, R[d], t2[1], 'conversion to integer ' + where); return
            raise Unsupported(o)
        if op == 'select':
            c, a, b = (s.val(st, ins[2][1], ('i', 1)), s.val(st, ins[3][1]), s.val(st, ins[4][1]))
            if isinstance(c, bool): R[ins[1]] = a if c else b; return
            x, y = s.branch(st, c)
            if x is not None: x.frames[-1].regs[ins[1]] = a
            if y is not None: y.frames[-1].regs[ins[1]] = b
            if x is st: return [y] if y is not None else None
            return None
        if op == 'br': s.goto(st, ins[1]); return
        if op == 'cbr':
            c = s.val(st, ins[1], ('i', 1))
            if isconc(c): c = bool(c)
            x, y = s.branch(st, c)
            if x is not None: s.goto(x, ins[2])
            if y is not None: s.goto(y, ins[3])
            return [y] if x is st and y is not None else None
        if op == 'ret':
            s.flush(st); v = s.val(st, ins[2], s.mod.ty.res(ins[1])) if ins[1] else None; st.frames.pop()
            if not st.frames: st.ret = v; st.halt = 'ret'
            elif f.dst: st.frames[-1].regs[f.dst] = v
            return
        if op == 'unreachable': st.halt = 'dead'; return
        if op == 'call':
            _, d, t, (k, name), args = ins
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'): return
            av = [s.val(st, a[1], s.mod.ty.res(a[0])) for a in args]
            h = s.contracts.get(name) or getattr(s, 'c_' + name.replace('.', '_'), None)
            if h is not None:
                r = h(s, st, av) if name in s.contracts else h(st, av, where)
                if d: R[d] = r
                return
            fn = s.mod.fns.get(name)
            if fn is None: raise Unsupported('external function ' + name)
            s.call(st, fn, av); st.frames[-1].dst = d; return
        raise Unsupported(op)
    def ghost(s, st, r):
        if isconc(r) or not s.ghosts: return r
        vs = str(r)
        if not s.gall and 'isqrt!' not in vs and 'q!' not in vs: return r
        for g in s.ghosts:
            if s.proved(st, r == g): return g
        return r
    # ------------------------------------------------------------ library functions
    def c_llvm_fabs_f64(s, st, a, w):
        x = a[0]
        if isconc(x): return abs(x)
        return z3.If(x >= 0, x, -x)
    c_fabs = c_llvm_fabs_f64
    def c_sqrt(s, st, a, w):
        x = zr(a[0]); st.pend.append((x >= 0, 'square root of a negative number ' + w)); s.flush(st)
        if not s.rounding:
            for g in s.sghosts:
                if s.proved(st, z3.And(g >= 0, g * g == x)): return g
        x = z3.simplify(x); kk = ('sqrt', x.get_id())
        if kk not in s.memo: s.memo[kk] = (s.new('sqrt', True), x)
        y = s.memo[kk][0]; st.pc += [y >= 0, y * y == x]
        if s.qbounds and s.proved(st, x < 1): st.pc.append(y < 1)
        return s.rnd(st, y)
    c_llvm_sqrt_f64 = c_sqrt
    def c_floor(s, st, a, w):
        x = zr(a[0])
        if isconc(a[0]): return Fraction(math.floor(a[0]))
        x = z3.simplify(x); kk = ('floor', x.get_id())
        if kk not in s.memo: s.memo[kk] = (s.new('floor'), x)
        k = s.memo[kk][0]; st.pc += [z3.ToReal(k) <= x, x < z3.ToReal(k) + 1]; return z3.ToReal(k)
    c_llvm_floor_f64 = c_floor
    def c_llvm_round_f64(s, st, a, w):
        """half away from zero"""
        x = zr(a[0])
        if isconc(a[0]): return Fraction(math.floor(abs(a[0]) + Fraction(1, 2)) * (1 if a[0] >= 0 else -1))
        k = s.new('round'); h = z3.Q(1, 2); st.pc.append(z3.If(x >= 0, z3.And(z3.ToReal(k) <= x + h, x + h < z3.ToReal(k) + 1), z3.And(z3.ToReal(k) >= x - h, x - h > z3.ToReal(k) - 1))); return z3.ToReal(k)
    c_llvm_round_f32 = c_llvm_round_f64; c_round = c_llvm_round_f64; c_roundf = c_llvm_round_f64
    def uf(n):
        f = z3.Function('uf_' + n, z3.RealSort(), z3.RealSort())
        return lambda s, st, a, w: f(zr(a[0]))
    c_cos = uf('cos'); c_sin = uf('sin'); c_acos = uf('acos'); c_llvm_cos_f64 = c_cos; c_llvm_sin_f64 = c_sin
    ATAN2 = z3.Function('uf_atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
    def c_atan2(s, st, a, w): return s.ATAN2(zr(a[0]), zr(a[1]))
    def c_fmod(s, st, a, w):
        if isconc(a[0]) and isconc(a[1]) and a[1] > 0: v = abs(Fraction(a[0])) % Fraction(a[1]); return v if a[0] >= 0 else -v
        x, y = zr(a[0]), zr(a[1]); s.flush(st)
        x, y = z3.simplify(x), z3.simplify(y); kk = ('fmod', x.get_id(), y.get_id())
        if kk not in s.memo:
            s.memo[kk] = (s.new('fmodq'), s.new('fmod', True), x, y)
            if s.lattice and s.lat(x) is not None and s.lat(y) is not None: s.lats[s.memo[kk][1].get_id()] = max(s.lat(x), s.lat(y))
        k, r = s.memo[kk][:2]
        st.pc += [x == r + z3.ToReal(k) * y, z3.If(x >= 0, z3.And(r >= 0, r < y), z3.And(r <= 0, -r < y))]; return r
    def c_util_fail_(s, st, a, w): st.halt = 'exit'; return None
