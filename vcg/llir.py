"""Reader for the LLVM IR text that clang-18 -O0 emits for the C sources of /repo.

Only the instructions that clang emits for this kind of C code are understood; anything else raises
Unsupported, which makes the check that needs it fail loudly (it is never skipped)."""
import re, struct
from fractions import Fraction

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ types
# ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('arr',n,T) ('struct',[T..]) ('x86_fp80',)
class Types:
    def __init__(self): self.named = {}
    def parse(self, s, i=0):
        """parse a type at s[i:], return (type, next index)"""
        while s[i] == ' ': i += 1
        m = re.compile(r'i(\d+)').match(s, i)
        if m: return ('i', int(m[1])), m.end()
        for k in ('double', 'float', 'ptr', 'void', 'x86_fp80', 'metadata'):
            if s.startswith(k, i): return (k,), i + len(k)
        if s[i] == '[':
            m = re.compile(r'\[(\d+) x ').match(s, i)
            t, j = self.parse(s, m.end())
            assert s[j] == ']'
            return ('arr', int(m[1]), t), j + 1
        if s[i] == '{':
            el = []; j = i + 1
            while True:
                while s[j] in ' ,': j += 1
                if s[j] == '}': return ('struct', tuple(el)), j + 1
                t, j = self.parse(s, j); el.append(t)
        if s[i] == '%':
            m = re.compile(r'%("[^"]+"|[\w.$]+)').match(s, i)
            return ('named', m[1]), m.end()
        raise Unsupported("type at " + s[i:i+60])
    def res(self, t):
        while t[0] == 'named': t = self.named[t[1]]
        return t
    def align(self, t):
        t = self.res(t)
        if t[0] == 'i': return max(1, min(8, (t[1] + 7) // 8))
        if t[0] in ('double', 'ptr'): return 8
        if t[0] == 'float': return 4
        if t[0] == 'arr': return self.align(t[2])
        if t[0] == 'struct': return max([self.align(x) for x in t[1]] or [1])
        if t[0] == 'x86_fp80': return 16
        raise Unsupported("align %r" % (t,))
    def size(self, t):
        t = self.res(t)
        if t[0] == 'i': return max(1, (t[1] + 7) // 8)
        if t[0] in ('double', 'ptr'): return 8
        if t[0] == 'float': return 4
        if t[0] == 'arr': return t[1] * self.size(t[2])
        if t[0] == 'x86_fp80': return 16
        if t[0] == 'struct':
            o = 0
            for x in t[1]:
                a = self.align(x); o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t); return (o + a - 1) // a * a
        raise Unsupported("size %r" % (t,))
    def field(self, t, k):
        t = self.res(t); o = 0
        for n, x in enumerate(t[1]):
            a = self.align(x); o = (o + a - 1) // a * a
            if n == k: return o, x
            o += self.size(x)
        raise Unsupported("field")

def fconst(tok, ty):
    """LLVM floating constant -> python float"""
    if tok.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(tok[2:].zfill(16)))[0]
    return float(tok)

class Fn:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'vararg', 'mod', 'internal')

class Mod:
    def __init__(self, text, name=''):
        self.name = name; self.ty = Types(); self.fns = {}; self.globals = {}; self.decls = set()
        self._parse(text)

    # -------------------------------------------------------------- operands
    def operand(self, tok, ty):
        """-> ('reg',name) | ('const',value) | ('glob',name) | ('null',) | ('undef',) | ('gep',...)"""
        tok = tok.strip()
        if tok.startswith('%'): return ('reg', tok[1:].strip('"'))
        if tok.startswith('@'): return ('glob', tok[1:].strip('"'))
        if tok in ('null',): return ('null',)
        if tok in ('undef', 'poison'): return ('undef',)
        if tok == 'zeroinitializer': return ('zero',)
        t = self.ty.res(ty)
        if tok in ('true', 'false'): return ('const', 1 if tok == 'true' else 0)
        if t[0] == 'i': return ('const', int(tok))
        if t[0] in ('double', 'float'): return ('fconst', fconst(tok, t))
        if tok.startswith('getelementptr'):
            m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', tok)
            return ('gepc', self._gep(m[1]))
        raise Unsupported("operand " + tok[:80])

    def _split(self, s):
        out = []; d = 0; q = False; cur = ''
        for c in s:
            if c == '"': q = not q
            if not q:
                if c in '([{<': d += 1
                elif c in ')]}>': d -= 1
                elif c == ',' and d == 0:
                    out.append(cur.strip()); cur = ''; continue
            cur += c
        if cur.strip(): out.append(cur.strip())
        return out

    def _gep(self, s):
        parts = self._split(s)
        t, j = self.ty.parse(parts[0])
        base = self._tyop(parts[1])
        idx = [self._tyop(p) for p in parts[2:]]
        return (t, base, idx)

    ATTR = re.compile(r'^(noundef|nonnull|zeroext|signext|readonly|nocapture|writeonly|noalias|returned|immarg|inreg|'
                      r'align \d+|dereferenceable\(\d+\)|byval\([^)]*\)|sret\([^)]*\))\s*')
    def _tyop(self, s):
        t, j = self.ty.parse(s)
        r = s[j:].strip(); attrs = []
        while True:
            m = self.ATTR.match(r)
            if not m: break
            attrs.append(m[1]); r = r[m.end():]
        return (t, self.operand(r, t), attrs)

    # -------------------------------------------------------------- module
    def _parse(self, text):
        lines = text.split('\n'); i = 0
        for ln in lines:
            m = re.match(r'^%("[^"]+"|[\w.$]+) = type (.*)$', ln)
            if m:
                if m[2].startswith('opaque'): self.ty.named[m[1]] = ('i', 8)
                else: self.ty.named[m[1]] = self.ty.parse(m[2])[0]
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'): self._global(ln)
            elif ln.startswith('declare'):
                self.decls.add(re.search(r'@([\w.$]+)\(', ln)[1])
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                self._func(lines[i:j]); i = j
            i += 1

    def _global(self, ln):
        m = re.match(r'^@("[^"]+"|[\w.$]+) = (.*)$', ln)
        name = m[1].strip('"'); r = m[2]
        ext = bool(re.match(r'.*\bexternal\b', r.split('"')[0]))
        k = re.search(r'\b(global|constant) ', r)
        const = k[1] == 'constant'
        r = r[k.end():]
        t, j = self.ty.parse(r)
        init = r[j:].strip()
        init = re.sub(r', align \d+$', '', init)
        init = re.sub(r', !dbg.*$', '', init)
        self.globals[name] = (t, None if ext else init, const)

    def init_cells(self, t, init, out, off=0):
        """global initialiser -> list of (offset,size,kind,value)"""
        t = self.ty.res(t); init = init.strip()
        if init == 'zeroinitializer':
            out.append((off, self.ty.size(t), 'zero', t)); return
        if init in ('undef', 'poison'): return
        if t[0] == 'arr':
            if init.startswith('c"'):
                s = init[2:init.rindex('"')]; b = []; k = 0
                while k < len(s):
                    if s[k] == '\\': b.append(int(s[k+1:k+3], 16)); k += 3
                    else: b.append(ord(s[k])); k += 1
                for n, c in enumerate(b): out.append((off + n, 1, 'int', c))
                return
            es = self.ty.size(t[2])
            for n, e in enumerate(self._split(init[1:-1])):
                et, j = self.ty.parse(e)
                self.init_cells(et, e[j:], out, off + n * es)
            return
        if t[0] == 'struct':
            inner = init[1:-1] if init.startswith('{') else init
            for n, e in enumerate(self._split(inner)):
                et, j = self.ty.parse(e)
                o, _ = self.ty.field(t, n)
                self.init_cells(et, e[j:], out, off + o)
            return
        op = self.operand(init, t)
        out.append((off, self.ty.size(t), 'op', op))

    def _func(self, ls):
        m = re.match(r'^define (?P<pre>.*?)@(?P<n>"[^"]+"|[\w.$]+)\((?P<a>.*)\)(?P<post>[^)]*)\{$', ls[0])
        if not m:
            raise Unsupported("define " + ls[0])
        f = Fn(); f.name = m['n'].strip('"'); f.mod = self
        pre = m['pre'].strip(); f.internal = 'internal' in pre.split()
        # return type = last type token of pre
        toks = re.sub(r'\b(dso_local|internal|hidden|noundef|zeroext|signext|nonnull|noalias|linkonce_odr|available_externally)\b', '', pre).strip()
        f.ret = self.ty.parse(toks)[0]
        f.params = []; f.vararg = False
        for a in self._split(m['a']):
            if a == '...': f.vararg = True; continue
            t, j = self.ty.parse(a)
            byval = re.search(r'byval\(', a)
            f.params.append((t, re.search(r'%("[^"]+"|[\w.$]+)$', a)[1].strip('"'), bool(byval)))
        f.blocks = {}; f.order = []
        cur = None
        body = []
        k = 1
        while k < len(ls):
            l = ls[k]
            if l.strip().startswith('switch') and ']' not in l:
                while ']' not in ls[k]: k += 1; l += ' ' + ls[k].strip()
            body.append(l); k += 1
        for l in body:
            if not l.strip(): continue
            m2 = re.match(r'^("[^"]+"|[\w.$]+):', l)
            if m2:
                cur = m2[1].strip('"'); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = '0'; f.blocks[cur] = []; f.order.append(cur)
            ins = self._ins(l.strip())
            if ins: f.blocks[cur].append(ins)
        self.fns[f.name] = f

    PRED = {}
    def _ins(self, l):
        l = re.sub(r',? !\w+( !\d+)?.*$', '', l) if ' !' in l and '"' not in l else l
        l = re.sub(r' #\d+$', '', l)
        dst = None
        m = re.match(r'^%("[^"]+"|[\w.$]+) = (.*)$', l)
        if m: dst = m[1].strip('"'); l = m[2]
        op = l.split(' ', 1)[0]; r = l[len(op):].strip()
        if op in ('tail', 'notail', 'musttail'):
            op = 'call'; r = r[4:].strip()
        S = self._split
        if op == 'load':
            r = r.replace('volatile ', '')
            p = S(r); t, _ = self.ty.parse(p[0]); return ('load', dst, t, self._tyop(p[1]))
        if op == 'store':
            r = r.replace('volatile ', '')
            p = S(r); return ('store', self._tyop(p[0]), self._tyop(p[1]))
        if op == 'alloca':
            p = S(r); t, _ = self.ty.parse(p[0]); n = None
            if len(p) > 1 and not p[1].startswith('align'): n = self._tyop(p[1])
            return ('alloca', dst, t, n)
        if op == 'getelementptr':
            return ('gep', dst) + self._gep(re.sub(r'^(inbounds|nuw|nusw) ', '', r))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem',
                  'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = []
            while True:
                m = re.match(r'^(nsw|nuw|exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|disjoint) ', r)
                if not m: break
                fl.append(m[1]); r = r[m.end():]
            p = S(r); t, j = self.ty.parse(p[0])
            return ('bin', dst, op, t, self.operand(p[0][j:], t), self.operand(p[1], t), tuple(fl))
        if op == 'fneg':
            t, j = self.ty.parse(r); return ('fneg', dst, t, self.operand(r[j:], t))
        if op in ('icmp', 'fcmp'):
            pred, r = r.split(' ', 1); p = S(r); t, j = self.ty.parse(p[0])
            return (op, dst, pred, t, self.operand(p[0][j:], t), self.operand(p[1], t))
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast'):
            r = re.sub(r'^(nneg|nuw|nsw) ', '', r)
            a, b = r.rsplit(' to ', 1); t, j = self.ty.parse(a); return ('cast', dst, op, t, self.operand(a[j:], t), self.ty.parse(b)[0])
        if op == 'br':
            if r.startswith('label'): return ('br', r.split('%')[1].strip('"'))
            p = S(r); t, j = self.ty.parse(p[0])
            return ('cbr', self.operand(p[0][j:], t), p[1].split('%')[1].strip('"'), p[2].split('%')[1].strip('"'))
        if op == 'switch':
            m = re.match(r'^(\S+) (\S+), label %(\S+) \[(.*)\]$', r)
            t, _ = self.ty.parse(m[1])
            cs = re.findall(r'(\S+) (-?\d+), label %("[^"]+"|[\w.$]+)', m[4])
            return ('switch', t, self.operand(m[2], t), m[3].strip('"'), [(int(c[1]), c[2].strip('"')) for c in cs])
        if op == 'ret':
            if r == 'void': return ('ret', None, None)
            t, j = self.ty.parse(r); return ('ret', t, self.operand(r[j:], t))
        if op == 'phi':
            t, j = self.ty.parse(r)
            inc = re.findall(r'\[ (.*?), %("[^"]+"|[\w.$]+) \]', r[j:])
            return ('phi', dst, t, [(self.operand(a, t), b.strip('"')) for a, b in inc])
        if op == 'select':
            p = S(r); return ('select', dst, self._tyop(p[0]), self._tyop(p[1]), self._tyop(p[2]))
        if op == 'unreachable': return ('unreachable',)
        if op == 'call':
            r = re.sub(r'^(fastcc|noundef|zeroext|signext|noalias|nonnull) ', '', r)
            while True:
                m = re.match(r'^(fastcc|noundef|zeroext|signext|noalias|nonnull|align \d+) ', r)
                if not m: break
                r = r[m.end():]
            t, j = self.ty.parse(r)
            r2 = r[j:].strip()
            if r2.startswith('('):           # varargs prototype
                d = 0
                for k, c in enumerate(r2):
                    if c == '(': d += 1
                    if c == ')':
                        d -= 1
                        if d == 0: break
                r2 = r2[k+1:].strip()
            m = re.match(r'^([@%])("[^"]+"|[\w.$]+)\((.*)\)', r2)
            callee = (m[1], m[2].strip('"'))
            args = [self._tyop(a) for a in S(m[3])] if 'metadata' not in m[3] else []
            return ('call', dst, t, callee, args)
        if op == 'freeze':
            t, j = self.ty.parse(r); return ('copy', dst, t, self.operand(r[j:], t))
        raise Unsupported("instruction " + l[:100])
