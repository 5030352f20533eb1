"""Symbolic executor (verification-condition generator) for the LLVM IR of the real sources.

State = registers of the call stack + byte-addressed memory cells + the signs decided so far.
Every comparison of symbolic values splits the state; nothing is merged, so each final state carries the
exact path condition under which it is reached.  Calls are executed in the callee's body unless a
contract is given for the callee."""
import math
from fractions import Fraction
from .terms import *
from .llir import Unsupported

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj = obj; s.off = off
    def __eq__(a, b): return isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off
    def __hash__(s): return hash((s.obj, s.off))
    def __repr__(s): return '&%s+%s' % (s.obj, s.off)
NULL = Ptr(None, 0)

class FnPtr:
    def __init__(s, name): s.name = name

class Violation(Exception):
    """a proof obligation failed during execution (memory access, undefined value, ...)"""

class NeedDecide(Exception):
    def __init__(s, t, true): s.t = t; s.true = true

class Obj:
    __slots__ = ('cells', 'size', 'zero', 'name', 'ro', 'lazy', 'dead')
    def __init__(s, name, size=None, zero=False, ro=False, lazy=None):
        s.cells = {}; s.size = size; s.zero = zero; s.name = name; s.ro = ro; s.lazy = lazy; s.dead = False
    def copy(s):
        o = Obj(s.name, s.size, s.zero, s.ro, s.lazy); o.cells = dict(s.cells); o.dead = s.dead; return o

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'dst', 'visits', 'allocas')
    def copy(s):
        f = Frame(); f.fn = s.fn; f.regs = dict(s.regs); f.blk = s.blk; f.ip = s.ip; f.prev = s.prev
        f.dst = s.dst; f.visits = dict(s.visits); f.allocas = list(s.allocas); return f

ALL = frozenset((-1, 0, 1))
NEGS = {'olt': (-1,), 'ole': (-1, 0), 'ogt': (1,), 'oge': (0, 1), 'oeq': (0,), 'one': (-1, 1)}
ICMP = {'slt': (-1,), 'sle': (-1, 0), 'sgt': (1,), 'sge': (0, 1), 'eq': (0,), 'ne': (-1, 1),
        'ult': (-1,), 'ule': (-1, 0), 'ugt': (1,), 'uge': (0, 1)}

class Signs:
    """decided signs of terms: canonical key -> allowed signs"""
    def __init__(s, d=None, log=None, iv=None):
        s.d = d or {}; s.log = log or (); s.iv = iv
    def get(s, t):
        """allowed signs of t"""
        if isc(t):
            v = cval(t); return frozenset(((v > 0) - (v < 0),))
        if s.iv is not None:
            lo, hi = s.iv.ev(t)
            a = frozenset(x for x, ok in ((-1, lo < 0), (0, lo <= 0 <= hi), (1, hi > 0)) if ok)
        else: a = ALL
        if len(a) > 1:
            k, sg = key(t)
            if k in s.d: a = a & frozenset(x * sg for x in s.d[k])
        return a
    def decide(s, t, true):
        a = s.get(t); true = frozenset(true)
        if a <= true: return True
        if not (a & true): return False
        raise NeedDecide(t, true)
    def refine(s, t, allowed):
        k, sg = key(t)
        cur = s.get(t) & frozenset(allowed)
        if not cur: return None
        d = dict(s.d); d[k] = frozenset(x * sg for x in cur)
        return Signs(d, s.log + ((t, cur),), s.iv)

class State:
    __slots__ = ('mem', 'frames', 'signs', 'events', 'nobj', 'ret', 'extra', 'steps', 'halt', 'own')
    def clone(s):
        n = State(); n.mem = dict(s.mem); n.own = set(); s.own = set()
        n.frames = [f.copy() for f in s.frames]; n.signs = s.signs; n.events = list(s.events); n.nobj = s.nobj
        n.ret = s.ret; n.extra = dict(s.extra); n.steps = s.steps; n.halt = s.halt
        return n
    def obj(s, oid): return s.mem[oid]
    def wobj(s, oid):
        if oid not in s.own:
            s.mem[oid] = s.mem[oid].copy(); s.own.add(oid)
        return s.mem[oid]

class PathLimit(Exception): pass

LIBM = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'exp', 'log', 'log10', 'floor', 'ceil', 'fabs', 'fmod', 'atan2',
        'pow', 'round', 'trunc', 'sinh', 'cosh', 'tanh'}
LLVMF = {'llvm.fabs.f64': 'fabs', 'llvm.floor.f64': 'floor', 'llvm.ceil.f64': 'ceil', 'llvm.round.f32': 'round', 'llvm.round.f64': 'round',
         'llvm.sqrt.f64': 'sqrt', 'llvm.trunc.f64': 'trunc', 'llvm.sin.f64': 'sin', 'llvm.cos.f64': 'cos', 'llvm.pow.f64': 'pow',
         'llvm.floor.f32': 'floor', 'llvm.fabs.f32': 'fabs', 'roundf': 'round', 'sqrtf': 'sqrt', 'fabsf': 'fabs', 'floorf': 'floor'}

class Program:
    """a set of modules linked together"""
    def __init__(s, mods):
        s.mods = mods; s.fns = {}
        for m in mods:
            for n, f in m.fns.items():
                if not f.internal: s.fns[n] = f
        s.globals = {}
        for m in mods:
            for n, (t, init, const) in m.globals.items():
                if init is not None and not n.startswith('.str') and not n.startswith('__const') : s.globals.setdefault(n, m)
    def lookup(s, mod, name):
        f = mod.fns.get(name)
        return f if f is not None else s.fns.get(name)

class Exec:
    def __init__(s, prog, contracts=None, iv=None, max_paths=4000, max_steps=3000000, max_visits=400, on_block=None):
        s.p = prog; s.contracts = contracts or {}; s.iv = iv
        s.max_paths = max_paths; s.max_steps = max_steps; s.max_visits = max_visits
        s.assumptions = set(); s.inlined = set(); s.used_contracts = set(); s.on_block = on_block
        s.total_steps = 0; s.split_fabs = False; s.cut = None; s.force_cut = None; s._heads = {}

    # ---------------------------------------------------------------- state construction
    def new_state(s):
        st = State(); st.mem = {}; st.own = set(); st.frames = []; st.signs = Signs(iv=s.iv); st.events = []
        st.nobj = 0; st.ret = None; st.extra = {}; st.steps = 0; st.halt = None
        return st
    def alloc(s, st, name, size=None, zero=False, ro=False, lazy=None):
        st.nobj += 1; oid = '%s#%d' % (name, st.nobj)
        st.mem[oid] = Obj(name, size, zero, ro, lazy); st.own.add(oid)
        return Ptr(oid, 0)
    def array(s, st, name, vals, esize=8):
        p = s.alloc(st, name, len(vals) * esize)
        for i, v in enumerate(vals):
            if v is not None: st.wobj(p.obj).cells[i * esize] = (esize, v)
        return p

    def glob(s, st, mod, name):
        m = mod
        g = mod.globals.get(name)
        if g is None or g[1] is None:
            m = s.p.globals.get(name)
            if m is None:
                if s.p.lookup(mod, name) is not None or name in mod.decls: return FnPtr(name)
                g = mod.globals.get(name)
                oid = 'extern:' + name
                if oid not in st.mem: st.mem[oid] = Obj(name, None, False, False, lazy=name); st.own.add(oid)
                return Ptr(oid, 0)
            g = m.globals[name]
        oid = 'glob:%s:%s' % (m.name, name)
        if oid not in st.mem:
            t, init, const = g
            o = Obj(name, m.ty.size(t), False, const)
            st.mem[oid] = o; st.own.add(oid)
            cells = []; m.init_cells(t, init, cells)
            for off, size, kind, v in cells:
                if kind == 'zero': s.zero_fill(m, o, off, m.ty.res(v))
                elif kind == 'int': o.cells[off] = (size, v)
                else: o.cells[off] = (size, s.val(st, m, None, v))
        return Ptr(oid, 0)
    def zero_fill(s, m, o, off, t):
        t = m.ty.res(t)
        if t[0] == 'arr':
            es = m.ty.size(t[2])
            if t[1] * es > 40000:
                o.zero = True; return
            for i in range(t[1]): s.zero_fill(m, o, off + i * es, t[2])
        elif t[0] == 'struct':
            for k in range(len(t[1])):
                fo, ft = m.ty.field(t, k); s.zero_fill(m, o, off + fo, ft)
        elif t[0] == 'ptr': o.cells[off] = (8, NULL)
        elif t[0] in ('double', 'float'): o.cells[off] = (m.ty.size(t), ZERO)
        else: o.cells[off] = (m.ty.size(t), 0)

    # ---------------------------------------------------------------- values
    def val(s, st, mod, fr, op):
        k = op[0]
        if k == 'reg':
            try: return fr.regs[op[1]]
            except KeyError: raise Unsupported('register ' + op[1])
        if k == 'const': return op[1]
        if k == 'fconst': return const(op[1])
        if k == 'glob': return s.glob(st, mod, op[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'gepc':
            t, base, idx = op[1]
            return s.gep(st, mod, fr, t, base, idx)
        raise Unsupported('operand %r' % (op,))

    def gep(s, st, mod, fr, t, base, idx):
        p = s.val(st, mod, fr, base[1])
        if p is UNDEF: raise Violation('address computed from an uninitialised pointer')
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        off = p.off; ty = t; first = True
        for (it, iop, _) in idx:
            i = s.val(st, mod, fr, iop)
            if isinstance(i, T):
                if isc(i): i = int(cval(i))
                else: i = s.concretize(st, i)
            if i is UNDEF: raise Violation('array index is uninitialised')
            if first: off = off + i * mod.ty.size(ty); first = False
            else:
                r = mod.ty.res(ty)
                if r[0] == 'arr': off = off + i * mod.ty.size(r[2]); ty = r[2]
                elif r[0] == 'struct': fo, ty = mod.ty.field(r, i); off = off + fo
                else: raise Unsupported('gep type')
        return Ptr(p.obj, off)

    def concretize(s, st, t, limit=64):
        lo, hi = (s.iv or Iv({})).ev(t)
        if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > limit: raise Unsupported('symbolic index ' + show(t))
        for v in range(math.ceil(lo - 1e-9), math.floor(hi + 1e-9) + 1):
            if st.signs.decide(t - v, (0,)): return v
        raise Violation('index out of its range')

    def tobool(s, st, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if v is UNDEF: raise Violation('branch on an uninitialised value')
        if isinstance(v, T): return st.signs.decide(v, (-1, 1))
        if isinstance(v, Ptr): return v != NULL
        raise Unsupported('bool %r' % (v,))

    # ---------------------------------------------------------------- memory
    def check(s, st, p, size, what):
        if not isinstance(p, Ptr): raise Violation('%s through an undefined pointer' % what)
        if p.obj is None: raise Violation('%s through a null pointer' % what)
        o = st.mem[p.obj]
        if o.dead: raise Violation('%s of a dead object %s' % (what, o.name))
        if o.size is not None and not (0 <= p.off and p.off + size <= o.size):
            raise Violation('%s out of bounds of %s (offset %d, size %d of %d)' % (what, o.name, p.off, size, o.size))
        return o
    def load(s, st, p, t, mod):
        rt = mod.ty.res(t); size = mod.ty.size(rt)
        o = s.check(st, p, size, 'read')
        c = o.cells.get(p.off)
        if c is not None and c[0] == size:
            v = c[1]
            if rt[0] in ('double', 'float') and isinstance(v, int): raise Unsupported('int read as double')
            return v
        if c is not None or any(off < p.off + size and p.off < off + cs for off, (cs, _) in o.cells.items() if abs(off - p.off) < 16):
            return s.load_bytes(st, o, p, size, rt)
        if o.zero: return ZERO if rt[0] in ('double', 'float') else (NULL if rt[0] == 'ptr' else 0)
        if o.lazy is not None:
            nm = '%s[%d]' % (o.lazy, p.off)
            if rt[0] == 'ptr': v = s.alloc(st, nm, lazy=nm)
            else:
                if rt[0] == 'i': INTV.add(nm)
                v = var(nm)
            st.wobj(p.obj).cells[p.off] = (size, v); return v
        return UNDEF
    def load_bytes(s, st, o, p, size, rt):
        if rt[0] != 'i': raise Unsupported('partial read of %s+%d' % (o.name, p.off))
        b = 0
        for i in range(size):
            byte = None
            for off, (cs, v) in o.cells.items():
                if off <= p.off + i < off + cs:
                    if not isinstance(v, int): raise Unsupported('byte of a symbolic cell %s+%d' % (o.name, p.off))
                    byte = (v >> (8 * (p.off + i - off))) & 255
            if byte is None:
                if not o.zero: return UNDEF
                byte = 0
            b |= byte << (8 * i)
        return s.sx(b, size * 8)
    def store(s, st, p, v, size):
        o = s.check(st, p, size, 'write')
        if o.ro: raise Violation('write to constant ' + o.name)
        o = st.wobj(p.obj)
        c = o.cells.get(p.off)
        if c is None or c[0] != size:
            for off in [k for k, (cs, _) in o.cells.items() if k < p.off + size and p.off < k + cs]:
                cs, ov = o.cells.pop(off)
                if off < p.off or off + cs > p.off + size:
                    if not isinstance(ov, int): raise Unsupported('partial overwrite of %s+%d' % (o.name, off))
                    for i in range(cs):
                        if not (p.off <= off + i < p.off + size): o.cells[off + i] = (1, s.sx((ov >> (8 * i)) & 255, 8))
        o.cells[p.off] = (size, v)
    def memcpy(s, st, d, q, n):
        if n == 0: return
        so = s.check(st, q, n, 'read'); s.check(st, d, n, 'write')
        cells = [(off - q.off, c) for off, c in so.cells.items() if q.off <= off and off + c[0] <= q.off + n]
        part = [off for off, c in so.cells.items() if off < q.off + n and q.off < off + c[0] and not (q.off <= off and off + c[0] <= q.off + n)]
        if part: raise Unsupported('partial memcpy')
        do = st.wobj(d.obj)
        for off in [k for k, (cs, _) in do.cells.items() if k < d.off + n and d.off < k + cs]:
            cs, _ = do.cells[off]
            if off < d.off or off + cs > d.off + n: raise Unsupported('partial memcpy target')
            del do.cells[off]
        for off, c in cells: do.cells[d.off + off] = c
        if so.zero and not cells: do.zero = True
    def sx(s, v, w):
        v &= (1 << w) - 1
        return v - (1 << w) if w > 1 and v >> (w - 1) else v
    def cstr(s, st, p, maxn=100000):
        """concrete C string at p, or None"""
        out = bytearray(); o = st.mem[p.obj]
        for i in range(maxn):
            c = o.cells.get(p.off + i)
            if c is None or c[0] != 1 or not isinstance(c[1], int): return None
            if c[1] == 0: return out.decode('latin1')
            out.append(c[1] & 255)
        return None
    def put_cstr(s, st, p, txt):
        for i, ch in enumerate(txt + '\0'): s.store(st, Ptr(p.obj, p.off + i), s.sx(ord(ch), 8), 1)

    # ---------------------------------------------------------------- running
    def call(s, st, f, args, dst=None):
        fr = Frame(); fr.fn = f; fr.regs = {}; fr.blk = f.order[0]; fr.ip = 0; fr.prev = None; fr.dst = dst
        fr.visits = {}; fr.allocas = []
        if len(args) < len(f.params): raise Violation('too few arguments for ' + f.name)
        for (t, n, byval), a in zip(f.params, args):
            if byval:
                sz = f.mod.ty.size(t) if t[0] != 'ptr' else None
                q = s.alloc(st, f.name + '.' + n, None)
                src = st.mem[a.obj]
                for off, c in src.cells.items():
                    if off >= a.off: st.wobj(q.obj).cells[off - a.off] = c
                st.wobj(q.obj).zero = src.zero; st.wobj(q.obj).lazy = src.lazy
                a = q
            fr.regs[n] = a
        st.frames.append(fr)

    def run(s, st, fname, args, mod=None):
        f = s.p.fns.get(fname) or (mod and mod.fns.get(fname))
        if f is None:
            for m in s.p.mods:
                if fname in m.fns: f = m.fns[fname]
        if f is None: raise Unsupported('function %s not found' % fname)
        s.call(st, f, args)
        return s.resume([st])

    def resume(s, work, stop_depth=0):
        """run all states until their call stack is empty; returns final states"""
        done = []; npaths = len(work)
        while work:
            st = work.pop()
            while True:
                try:
                    while len(st.frames) > stop_depth and st.halt is None: s.step(st)
                    done.append(st); break
                except NeedDecide as nd:
                    npaths += 1
                    if npaths > s.max_paths: raise PathLimit('more than %d paths' % s.max_paths)
                    other = st.clone()
                    st.signs = st.signs.refine(nd.t, nd.true)
                    other.signs = other.signs.refine(nd.t, ALL - nd.true)
                    work.append(other)
                except Violation as v:
                    st.halt = ('violation', str(v), s.where(st)); done.append(st); break
        return done

    def where(s, st):
        if not st.frames: return ''
        fr = st.frames[-1]
        return '%s:%s#%d' % (fr.fn.name, fr.blk, fr.ip)

    def heads(s, f):
        """targets of back edges"""
        h = s._heads.get(f)
        if h is None:
            h = set(); col = {}
            def succ(b):
                i = f.blocks[b][-1]
                if i[0] == 'br': return [i[1]]
                if i[0] == 'cbr': return [i[2], i[3]]
                if i[0] == 'switch': return [i[3]] + [l for _, l in i[4]]
                return []
            st = [(f.order[0], iter(succ(f.order[0])))]; col[f.order[0]] = 1
            while st:
                b, it = st[-1]
                for n in it:
                    c = col.get(n, 0)
                    if c == 1: h.add(n)
                    elif c == 0:
                        col[n] = 1; st.append((n, iter(succ(n)))); break
                else: col[b] = 2; st.pop()
            s._heads[f] = h
        return h
    def jump(s, st, fr, lab):
        n = fr.visits.get(lab, 0) + 1; fr.visits[lab] = n
        if s.cut is not None and lab in s.heads(fr.fn):
            k = (len(st.frames), lab)
            if s.force_cut is not None:
                if s.force_cut[0] == k: st.halt = ('loop', k, lab); fr.prev = fr.blk; fr.blk = lab; fr.ip = 0; return
            elif n == 1 or k not in st.extra:
                snap = st.clone(); f2 = snap.frames[-1]; f2.visits[lab] = 0; f2.prev = fr.blk; f2.blk = lab; f2.ip = 0
                snap.extra = dict(st.extra); st.extra[k] = (snap, st.signs.log)
            elif len(st.signs.log) > len(st.extra[k][1]) and st.extra[k][0] is not s.cut.get('skip'):
                st.halt = ('loop', k, lab); fr.prev = fr.blk; fr.blk = lab; fr.ip = 0; return
        if n > s.max_visits: raise PathLimit('loop in %s at %s needs more than %d iterations' % (fr.fn.name, lab, s.max_visits))
        fr.prev = fr.blk; fr.blk = lab; fr.ip = 0
        if s.on_block: s.on_block(s, st, fr, lab)
        # phis, in parallel
        blk = fr.fn.blocks[lab]
        if blk and blk[0][0] == 'phi':
            new = {}
            k = 0
            while blk[k][0] == 'phi':
                _, d, t, inc = blk[k]
                for op, b in inc:
                    if b == fr.prev: new[d] = s.val(st, fr.fn.mod, fr, op); break
                k += 1
            fr.regs.update(new); fr.ip = k

    def step(s, st):
        fr = st.frames[-1]; mod = fr.fn.mod
        ins = fr.fn.blocks[fr.blk][fr.ip]
        st.steps += 1; s.total_steps += 1
        if st.steps > s.max_steps: raise PathLimit('step limit')
        k = ins[0]; R = fr.regs
        if k == 'load':
            p = s.val(st, mod, fr, ins[3][1]); R[ins[1]] = s.load(st, p, ins[2], mod)
        elif k == 'store':
            v = s.val(st, mod, fr, ins[1][1]); p = s.val(st, mod, fr, ins[2][1])
            t = mod.ty.res(ins[1][0])
            if t[0] == 'i' and isinstance(v, T) and isc(v): v = int(cval(v))
            s.store(st, p, v, mod.ty.size(t))
        elif k == 'gep':
            R[ins[1]] = s.gep(st, mod, fr, ins[2], ins[3], ins[4])
        elif k == 'bin': R[ins[1]] = s.binop(st, ins, s.val(st, mod, fr, ins[4]), s.val(st, mod, fr, ins[5]), mod)
        elif k == 'fneg':
            v = s.val(st, mod, fr, ins[3]); R[ins[1]] = UNDEF if v is UNDEF else neg(v)
        elif k == 'br':
            s.jump(st, fr, ins[1]); return
        elif k == 'cbr':
            c = s.tobool(st, s.val(st, mod, fr, ins[1])); s.jump(st, fr, ins[2] if c else ins[3]); return
        elif k == 'icmp' or k == 'fcmp': R[ins[1]] = s.cmp(st, k, ins[2], mod.ty.res(ins[3]), s.val(st, mod, fr, ins[4]), s.val(st, mod, fr, ins[5]))
        elif k == 'cast': R[ins[1]] = s.cast(st, ins[2], mod.ty.res(ins[3]), s.val(st, mod, fr, ins[4]), mod.ty.res(ins[5]))
        elif k == 'alloca':
            n = 1
            if ins[3] is not None:
                n = s.val(st, mod, fr, ins[3][1])
                if isinstance(n, T): n = int(cval(n))
            p = s.alloc(st, fr.fn.name + '.' + ins[1], mod.ty.size(ins[2]) * n); R[ins[1]] = p; fr.allocas.append(p.obj)
        elif k == 'ret':
            v = None if ins[1] is None else s.val(st, mod, fr, ins[2])
            st.frames.pop()
            for o in fr.allocas:
                # keep objects (they may still be named by dangling pointers): mark dead
                st.mem.pop(o, None)
            if st.frames:
                f2 = st.frames[-1]
                if fr.dst is not None: f2.regs[fr.dst] = v
                f2.ip += 1
            else: st.ret = v
            return
        elif k == 'select':
            c = s.tobool(st, s.val(st, mod, fr, ins[2][1])); R[ins[1]] = s.val(st, mod, fr, (ins[3] if c else ins[4])[1])
        elif k == 'switch':
            v = s.val(st, mod, fr, ins[2])
            if v is UNDEF: raise Violation('switch on an uninitialised value')
            lab = ins[3]
            w = mod.ty.res(ins[1])[1]
            for c, l in ins[4]:
                if isinstance(v, T):
                    if st.signs.decide(v - c, (0,)): lab = l; break
                elif s.sx(c, w) == v: lab = l; break
            s.jump(st, fr, lab); return
        elif k == 'call':
            if s.docall(st, fr, mod, ins): return
        elif k == 'copy': R[ins[1]] = s.val(st, mod, fr, ins[3])
        elif k == 'unreachable': raise Violation('unreachable code reached')
        else: raise Unsupported(k)
        fr.ip += 1

    def binop(s, st, ins, a, b, mod):
        op = ins[2]; t = mod.ty.res(ins[3])
        if a is UNDEF or b is UNDEF: return UNDEF
        if op[0] == 'f':
            if op == 'fadd': return add(a, b)
            if op == 'fsub': return sub(a, b)
            if op == 'fmul': return mul(a, b)
            if op == 'fdiv': return div(a, b)
            return fn('fmod', a, b)
        w = t[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return a.off - b.off
            raise Unsupported('pointer arithmetic')
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = a & ((1 << w) - 1), b & ((1 << w) - 1)
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'sdiv':
                if b == 0: raise Violation('division by zero')
                r = abs(a) // abs(b); r = r if (a < 0) == (b < 0) else -r
            elif op == 'srem':
                if b == 0: raise Violation('division by zero')
                r = abs(a) % abs(b); r = -r if a < 0 else r
            elif op == 'udiv': r = ua // ub
            elif op == 'urem': r = ua % ub
            elif op == 'and': r = ua & ub
            elif op == 'or': r = ua | ub
            elif op == 'xor':
                if w == 1: return 1 if (ua ^ ub) else 0
                r = ua ^ ub
            elif op == 'shl': r = ua << ub
            elif op == 'lshr': r = ua >> ub
            elif op == 'ashr': r = a >> ub
            else: raise Unsupported(op)
            if 'nsw' in ins[6] and s.sx(r, w) != r: raise Violation('signed integer overflow')
            return s.sx(r, w) if w > 1 else r & 1
        A, B = lift(a), lift(b)
        if op == 'add': r = add(A, B)
        elif op == 'sub': r = sub(A, B)
        elif op == 'mul': r = mul(A, B)
        elif op in ('sdiv', 'srem'): r = fn(op, A, B)
        elif op in ('udiv', 'urem'):
            if s.iv is None or s.iv.ev(A)[0] < 0 or s.iv.ev(B)[0] < 0: raise Unsupported('unsigned division of a possibly negative value')
            r = fn('s' + op[1:], A, B)
        elif op == 'shl' and isinstance(b, int): r = mul(A, const(1 << b))
        elif op in ('ashr', 'lshr') and isinstance(b, int): r = fn('floor', mul(A, const(Fraction(1, 1 << b))))
        elif op == 'xor' and w == 1 and isinstance(b, int): r = sub(ONE, A) if b & 1 else A
        elif op in ('and', 'or', 'xor'): r = fn('bit' + op, A, B)
        else: raise Unsupported('symbolic ' + op)
        if isc(r): return int(cval(r))
        if s.iv is not None and op in ('add', 'sub', 'mul', 'shl'):
            lo, hi = s.iv.ev(r)
            lim = 1 << (w - 1)
            if not (lo >= -lim and hi < lim): s.assumptions.add('no overflow of %d-bit %s' % (w, op))
        elif op in ('add', 'sub', 'mul', 'shl'): s.assumptions.add('no overflow of %d-bit %s' % (w, op))
        return r

    def cmp(s, st, k, pred, t, a, b):
        if a is UNDEF or b is UNDEF: raise Violation('comparison of an uninitialised value')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('ptr compare')
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if a.obj != b.obj: raise Violation('ordering of unrelated pointers')
            d = a.off - b.off
            return int(((d > 0) - (d < 0)) in ICMP[pred])
        if isinstance(a, FnPtr) or isinstance(b, FnPtr): raise Unsupported('function pointer compare')
        if k == 'icmp' and isinstance(a, int) and isinstance(b, int):
            if pred[0] == 'u': w = t[1]; a &= (1 << w) - 1; b &= (1 << w) - 1
            return int(((a > b) - (a < b)) in ICMP[pred])
        A, B = lift(a), lift(b)
        if k == 'fcmp':
            if pred == 'ord': return 1
            if pred == 'uno': return 0
            tr = NEGS['o' + pred[1:]]
            if (A.op == 's' or B.op == 's'):
                if B.op == 's' and B.args[0] in ('inf', '-inf'): sg = -1 if B.args[0] == 'inf' else 1
                elif A.op == 's' and A.args[0] in ('inf', '-inf'): sg = 1 if A.args[0] == 'inf' else -1
                else: return 0
                return int(sg in tr)
        else: tr = ICMP[pred]
        return int(st.signs.decide(sub(A, B), tr))

    def cast(s, st, op, ft, v, tt):
        if v is UNDEF: return UNDEF
        if op in ('sext', 'fpext', 'fptrunc', 'bitcast'):
            if op == 'sext' and ft[1] == 1 and isinstance(v, int): return -1 if v & 1 else 0
            return v
        if op == 'zext':
            if isinstance(v, int): return v & ((1 << ft[1]) - 1)
            if ft[1] > 1 and (s.iv is None or s.iv.ev(v)[0] < 0):
                if st.signs.decide(v, (-1,)): return add(v, const(1 << ft[1]))
            return v
        if op == 'trunc':
            if isinstance(v, int): return s.sx(v, tt[1]) if tt[1] > 1 else v & 1
            if isinstance(v, T):
                if tt[1] == 1: return int(st.signs.decide(v, (-1, 1)))
                if s.iv is not None:
                    lo, hi = s.iv.ev(v)
                    if lo >= -(1 << (tt[1] - 1)) and hi < (1 << (tt[1] - 1)): return v
                s.assumptions.add('narrowing to %d bits keeps the value' % tt[1])
            return v
        if op in ('sitofp', 'uitofp'): return lift(v)
        if op in ('fptosi', 'fptoui'):
            r = fn('trunc', v)
            if isc(r): return int(cval(r))
            return r
        raise Unsupported('cast ' + op)

    def docall(s, st, fr, mod, ins):
        _, dst, t, callee, args = ins
        if callee[0] == '%':
            fp = fr.regs[callee[1]]
            if not isinstance(fp, FnPtr): raise Unsupported('indirect call')
            name = fp.name
        else: name = callee[1]
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'): return False
        av = [s.val(st, mod, fr, a[1]) for a in args]
        c = s.contracts.get(name)
        if c is not None:
            s.used_contracts.add(name)
            r = c(s, st, av, ins)
            if r is s.HALT: return True
            if dst is not None: fr.regs[dst] = r
            return False
        f = s.p.lookup(mod, name)
        if f is not None and name not in LIBM:
            s.inlined.add(name)
            if len(st.frames) > 60: raise PathLimit('recursion')
            s.call(st, f, av, dst); return True
        r = s.builtin(st, name, av, t, mod)
        if dst is not None: fr.regs[dst] = r
        return False
    HALT = object()

    def builtin(s, st, name, a, t, mod):
        n = LLVMF.get(name, name)
        if n in LIBM:
            if any(x is UNDEF for x in a): return UNDEF
            if n == 'fabs' and s.split_fabs: return neg(lift(a[0])) if st.signs.decide(lift(a[0]), (-1,)) else a[0]
            return fn(n, *a)
        if name.startswith('llvm.fmuladd') or name in ('fma',):
            if any(x is UNDEF for x in a): return UNDEF
            return add(mul(a[0], a[1]), a[2])
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') or name.startswith('llvm.memmove'):
            s.memcpy(st, a[0], a[1], a[2] if isinstance(a[2], int) else int(cval(a[2]))); return a[0]
        if name.startswith('llvm.memset') or name == 'memset':
            if a[1] != 0: raise Unsupported('memset value')
            s.check(st, a[0], a[2], 'write')
            o = st.wobj(a[0].obj)
            for off in [k for k, (cs, _) in o.cells.items() if k < a[0].off + a[2] and a[0].off < k + cs]: del o.cells[off]
            if a[0].off == 0 and (o.size is None or a[2] >= o.size): o.zero = True
            else:
                for i in range(a[2]): o.cells[a[0].off + i] = (1, 0)
            return a[0]
        if name.startswith('llvm.is.fpclass'):
            s.assumptions.add('no NaN or infinity arises'); return 0
        if name in ('abs', 'labs'):
            if isinstance(a[0], int): return abs(a[0])
            return fn('fabs', a[0])
        if name == '__isnan' or name == 'isnan': return 0
        if name == 'llvm.stacksave.p0': return NULL
        if name in ('llvm.stackrestore.p0',): return None
        raise Unsupported('call of external function ' + name)
