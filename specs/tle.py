"""Contracts of the element parser (C04 checksum and status, C05 decoding, C06 memory safety): CBMC on the source itself with
callees replaced by their contracts; symbolic bytes and reals (z3) for the decoded numbers; a native falsifier."""
import os, re, subprocess, time, resource, signal
from fractions import Fraction
import math, z3
from vcg import build
from vcg.llir import Unsupported
from vcg.zexec import ZExec, St, Pt, isconc, zi, zr
from specs.healpix import Part

SRC = build.SRC + '/get_el.c'
# ------------------------------------------------------------------ CBMC
PRE = r'''
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
int nondet_int(void); char nondet_char(void); double nondet_double(void);
#include "norad.h"
#define atoi spec_atoi
int spec_atoi(const char*p);
#include "get_el.c"
#undef atoi
#ifndef N1
#define N1 70
#endif
#ifndef N2
#define N2 70
#endif
char *L1, *L2; int C1, C2;
/* the text after column 69 ends: a control character, a blank or (unspecified) a byte beyond ASCII */
static int validline(const char*b,size_t n){ if(n<69) return 0; if((b[0]!='1'&&b[0]!='2')||b[1]!=' ') return 0; int ok=1; for(int i=2;i<68;i++) if(b[i]<' '||b[i]>'z') ok=0; return ok&&b[68]>='0'&&b[68]<='9'&&b[69]<=' '; }
/* contract of tle_checksum (proved by the part "checksum"): negative exactly for a text that is not a TLE line, else 0..9 */
int stub_checksum(const char*b){ __CPROVER_assert(b==L1||b==L2,"checksum of a line"); return b==L1?C1:C2; }
static int sumof(const char*b){ int s=0; for(int i=0;i<68;i++){ if(b[i]>='0'&&b[i]<='9') s+=b[i]-'0'; if(b[i]=='-') s++; } return ((s-(b[68]-'0'))%10+10)%10; }
static int b34(char c){ if(c>='0'&&c<='9') return c-'0'; if(c>='A'&&c<='Z'&&c!='I'&&c!='O') return c-'A'+10-(c>'I')-(c>'O'); return -1; }
'''
ATOI_ANY = r'''
/* contract of atoi: requires a NUL-terminated string; any int of at most as many digits as the string has characters */
int spec_atoi(const char*p){ size_t size=__CPROVER_OBJECT_SIZE(p), off=__CPROVER_POINTER_OFFSET(p);
  __CPROVER_assert(__CPROVER_r_ok(p,1),"atoi requires a readable string");
  int r=nondet_int();
  if(size<=16){ int n=-1; long b=1; for(int i=0;i<16&&n<0;i++) if(off+i<size){ if(p[i]==0) n=i; else b*=10; } __CPROVER_assert(n>=0,"atoi requires a NUL-terminated string"); if(n<=9) __CPROVER_assume(r<b&&r>-b); }
  return r; }
'''
ATOI = r'''
/* atoi of the C library: blanks, sign, digits */
int spec_atoi(const char*p){ int v=0, neg=0; while(*p==' '||(*p>=9&&*p<=13)) p++; if(*p=='-'||*p=='+') neg=*p++=='-'; for(int i=0;i<9&&*p>='0'&&*p<='9';i++) v=v*10+(*p++-'0'); return neg?-v:v; }
'''
LINES = r'''
  char l1[N1+1]; for(int i=0;i<N1;i++){ char c=nondet_char(); __CPROVER_assume(c!=0); l1[i]=c; } l1[N1]=0;
  char l2[N2+1]; for(int i=0;i<N2;i++){ char c=nondet_char(); __CPROVER_assume(c!=0); l2[i]=c; } l2[N2]=0;
'''
BOUNDS = ['--no-standard-checks', '--bounds-check', '--pointer-check']
OFFCHK = ['--no-standard-checks']
SAFETY = ['--bounds-check', '--pointer-check', '--signed-overflow-check', '--div-by-zero-check', '--conversion-check', '--undefined-shift-check']
def cbmc(name, harness, defs=(), flags=(), stub=False, timeout=700, unwind=75):
    """[(id, description, result)], {line: text} of the counterexample"""
    d = build.tmp(); b = d + '/' + re.sub(r'\W', '_', name); open(b + '.c', 'w').write(PRE + harness)
    m = re.findall(r'\b(tle_checksum|parse_elements)\b', open(SRC).read())
    lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    def go(cmd):
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, preexec_fn=lim); return r.returncode, r.stdout
        except subprocess.TimeoutExpired: raise Unsupported('%s: no answer in %d s' % (name, timeout))
    rc, o = go(['goto-cc', '-I' + build.SRC] + list(defs) + [b + '.c', '-o', b + '.gb', '--function', 'harness'])
    if rc: raise Unsupported('goto-cc: ' + o[-400:])
    if stub:
        rc, o = go(['goto-instrument', '--replace-calls', 'tle_checksum:stub_checksum', b + '.gb', b + 'r.gb'])
        if rc: raise Unsupported('goto-instrument: ' + o[-300:])
        os.remove(b + '.gb'); os.rename(b + 'r.gb', b + '.gb')
    rc, o = go(['cbmc', b + '.gb', '--function', 'harness', '--unwind', str(unwind), '--drop-unused-functions', '--slice-formula', '--sat-solver', 'cadical', '--trace', '--no-malloc-may-fail'] + list(flags or OFFCHK) + ['--unwinding-assertions'])
    os.remove(b + '.gb')
    res = re.findall(r'^\[(\S+)\] (?:line \d+ |file \S+ line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN)$', o, re.M)
    nb = set(re.findall(r'no body for function (\S+)', o)) - {'nondet_int', 'nondet_char', 'nondet_double'}
    if rc not in (0, 10) or not res: raise Unsupported("cbmc: " + o[-300:] + str(re.findall(r"^.*: (?!SUCCESS).*$", o, re.M)[-400:]))
    if nb and rc == 10: raise Unsupported('functions without a body: ' + ', '.join(sorted(nb)))
    cex = {}
    if rc == 10:
        for tr in re.split(r'^Trace for ', o, flags=re.M)[1:]:
            L = {1: {}, 2: {}}
            for k, i, bits in re.findall(r'^\s+l([12])\[(\d+)l*\]=.*\(([01 ]+)\)$', tr, re.M): L[int(k)][int(i)] = int(bits.replace(' ', ''), 2)
            tid = tr.split(':')[0].strip()
            cex[tid] = [bytes(L[k][i] for i in range(len(L[k])) if i in L[k]).split(b'\0')[0] for k in (1, 2)]
    return res, cex
class Cbmc(Part):
    assume = ['libc: atoi by contract; memcpy by the model of CBMC']
    def __init__(s, prop, name, fns, runs, weight=10): s.prop = prop; s.runs = runs; s.weight = weight; Part.__init__(s, name, fns)
    def prepare(s): native()
    def run(s, seed, tier):
        s.obls = []; s.viol = []; s.notes = []; s.solver = {}; s.evals = 0
        for kw in s.runs:
            t = time.time()
            a = dict(kw); nm = a.pop('name')
            try: res, cex = cbmc(s.prop + nm, **a)
            except Unsupported as e: s.obls.append(('%s/%s' % (s.name, kw['name']), 'undecided', 'engine', str(e)[:300])); continue
            finally: s.solver['cbmc'] = s.solver.get('cbmc', 0) + time.time() - t
            for i, d, r in res:
                st = 'ok' if r == 'SUCCESS' else 'undecided'
                if r == 'FAILURE':
                    # the counterexample is a complete input of a deterministic function: it counts if the compiled parser fails on it
                    w = replay(s.prop, cex.get(i, [b'', b'']))
                    if w: st = 'failed'; s.viol.append(dict(w, contract=s.name, obligation=['%s %s' % (kw['name'], d)], replayed=True)) if len(s.viol) < 2 else None
                    else: s.notes.append('%s %s: the counterexample of the model checker is not one of the compiled code' % (kw['name'], d))
                s.obls.append(('%s/%s %s' % (s.name, kw['name'], d if 'assertion' in i else i), st, 'cbmc', d))
        return dict(obls=s.obls, functions={f: dict(contract=s.name, obligations=len(s.obls)) for f in s.fns}, violations=s.viol, solver=s.solver, notes=s.notes, evaluations=0, assumptions=s.assume)

CHECK = r'''
int spec_atoi(const char*p){ return 0; }
void harness(void){ %s
  int r=tle_checksum(l1); L1=l1;
  if(!validline(l1,N1)) __CPROVER_assert(r<0,"not a TLE line: negative"); else __CPROVER_assert(r==sumof(l1),"difference of the check digit, 0 to 9"); }
''' % LINES.split('\n')[1]
STATUS = ATOI_ANY + r'''
static int hexbad(const char*s){ int bad=*s!='+'&&*s!='-'; for(int i=1;i<9;i++) if(!((s[i]>='0'&&s[i]<='9')||(s[i]>='A'&&s[i]<='Z'))) bad=1; return bad; }
void harness(void){ ''' + LINES + r'''
  L1=l1; L2=l2; C1=nondet_int(); C2=nondet_int(); __CPROVER_assume(C1<=9&&C2<=9&&C1>=-3&&C2>=-3&&(C1>=0)==validline(l1,N1)&&(C2>=0)==validline(l2,N2));
  tle_t sat; int r=parse_elements(l1,l2,&sat);
  int bad=l1[0]!='1'||l2[0]!='2'||C1<0||C2<0;
  if(!bad&&l1[62]=='H') for(int i=0;i<3;i++) if(hexbad(l1+33+10*i)||hexbad(l2+33+10*i)) bad=1;
  if(bad) __CPROVER_assert(r<0,"negative unless both lines are valid (and the state vector is well formed)"); else __CPROVER_assert(r==(C1>0)+2*(C2>0),"0, or the bit mask of the wrong check digits");
}
'''
# a valid pair with the fields of interest free
def layout(extra):
    return LINES + r'''
  static const char T1[]="1 ?????U 98067A   20219.51782528 -.00000217  00000-0  41667-4 0  9998", T2[]="2 ????? 051.6461 093.0000 0001234 123.4567 234.5678 15.49507896236512";
  for(int i=0;i<69;i++){ if(T1[i]!='?') l1[i]=T1[i]; if(T2[i]!='?') l2[i]=T2[i]; } l1[69]=l2[69]=0;
  for(int i=2;i<7;i++) __CPROVER_assume(l1[i]>=' '&&l1[i]<='z'&&l2[i]>=' '&&l2[i]<='z');
  L1=l1; L2=l2; C1=0; C2=0; tle_t sat;
''' + extra
RANK = r'''
static long cat(const char*s){ long v[5]; for(int i=0;i<5;i++){ v[i]=b34(s[i]); if(v[i]<0) return 0; }
  if(v[1]<10&&v[2]<10&&v[3]<10&&v[4]<10) return v[0]*10000+v[1]*1000+v[2]*100+v[3]*10+v[4];
  long b=340000; if(v[4]>=10) return b+(((v[0]*34+v[1])*34+v[2])*34+v[3])*24+v[4]-10; b+=32072064;
  if(v[3]>=10) return b+(((v[0]*34+v[1])*34+v[2])*24+v[3]-10)*10+v[4]; b+=9432960;
  if(v[2]>=10) return b+((v[0]*34+v[1])*24+v[2]-10)*100+v[3]*10+v[4]; b+=2774400;
  return b+(v[0]*24+v[1]-10)*1000+v[2]*100+v[3]*10+v[4]; }
'''
CATALOGUE = ATOI + RANK + 'void harness(void){' + layout(r'''
  char cl=nondet_char(); __CPROVER_assume(cl>=' '&&cl<='z'); l1[7]=cl;
  int r=parse_elements(l1,l2,&sat); __CPROVER_assert(r==0,"accepted");
  int blank=0; for(int i=2;i<7;i++) if(l1[i]==' ') blank=1;
  if(!blank){ long c=cat(l1+2); __CPROVER_assert(sat.norad_number==c,"catalogue number: classic, Alpha-5, extended, or 0 if invalid"); __CPROVER_assert(c>=0&&c<45435424,"catalogue number in the documented range"); }
}''')
DISTINCT = RANK + r'''
int spec_atoi(const char*p){ return 0; }
void harness(void){ char a[5],b[5]; int same=1; for(int i=0;i<5;i++){ a[i]=nondet_char(); b[i]=nondet_char(); __CPROVER_assume(b34(a[i])>=0&&b34(b[i])>=0); if(a[i]!=b[i]) same=0; }
  __CPROVER_assert(same||cat(a)!=cat(b),"different catalogue numbers decode to different numbers"); }
'''
INTS = ATOI + 'void harness(void){' + layout(r'''
  for(int i=2;i<7;i++) l1[i]=l2[i]='5';
  int seen=0; long bull=0, rev=0;
  for(int i=64;i<68;i++){ char c=nondet_char(); __CPROVER_assume((c>='0'&&c<='9')||(c==' '&&!seen)); l1[i]=c; if(c!=' '){ seen=1; bull=bull*10+(c-'0'); } }
  seen=0; for(int i=63;i<68;i++){ char c=nondet_char(); __CPROVER_assume((c>='0'&&c<='9')||(c==' '&&!seen)); l2[i]=c; if(c!=' '){ seen=1; rev=rev*10+(c-'0'); } }
  char c=nondet_char(); __CPROVER_assume(c>=' '&&c<='z'&&!(c>='0'&&c<='9')); l1[7]=c;
  c=nondet_char(); __CPROVER_assume(c>=' '&&c<='z'&&c!='H'); l1[62]=c;
  for(int i=9;i<17;i++){ c=nondet_char(); __CPROVER_assume(c>=' '&&c<='z'); l1[i]=c; }
  c=nondet_char(); __CPROVER_assume(c>='0'&&c<='9'); l1[68]=c; c=nondet_char(); __CPROVER_assume(c>='0'&&c<='9'); l2[68]=c;
  int r=parse_elements(l1,l2,&sat); __CPROVER_assert(r==0,"accepted");
  __CPROVER_assert(sat.bulletin_number==bull,"element number"); __CPROVER_assert(sat.revolution_number==rev,"revolution number");
  __CPROVER_assert(sat.classification==l1[7],"classification"); __CPROVER_assert(sat.ephemeris_type==l1[62],"ephemeris type");
  int eq=sat.intl_desig[8]==0; for(int i=0;i<8;i++) if(sat.intl_desig[i]!=l1[9+i]) eq=0; __CPROVER_assert(eq,"international designator"); __CPROVER_assert(sat.norad_number==55555,"catalogue number");
}''')

# ------------------------------------------------------------------ decoded numbers
STATEV = {'sv%d' % k: (1 + k // 3, 33 + 10 * (k % 3)) for k in range(6)}     # columns of the state vector
PI_ = Fraction(math.pi)
FIELDS = {'epoch', 'xndt2o', 'xndd6o', 'bstar', 'xincl', 'xnodeo', 'eo', 'omegao', 'xmo', 'xno'}
OFF = {}
def offsets():
    if not OFF: OFF.update(build.struct_offsets('#include "norad.h"\n', 'tle_t', sorted(FIELDS), 'tle'))
    return OFF
class Decode(Part):
    """parse_elements on well-formed lines with symbolic digits: the decoded number is the one the columns denote (relative error 1e-14)"""
    prop = 'C05'
    T1 = '1 25544U 98067A   20219.51782528 -.00000217  00000-0  41667-4 0  9998'; T2 = '2 25544 051.6461 093.0000 0001234 123.4567 234.5678 15.49507896236512'
    assume = ['libc: atoi by contract', 'well-formed numbers of different fields are decoded independently of one another (each run varies the layout of one field, all digits free; the native part varies all at once)']
    def __init__(s, name, runs): s.runs = runs; Part.__init__(s, 'decoding: ' + name, ['parse_elements'])
    def replay(s, bad): return search('C05')
    def prepare(s): native(); build.module('get_el'); offsets()
    def prove(s, seed, tier):
        m = build.module('get_el')
        if 'parse_elements' not in m.fns: raise Unsupported('no function parse_elements')
        off = offsets()
        for label, edits, want in s.runs:
            ex = ZExec(m, timeout=20000); st = St(); st.nonneg = {}
            txt = {1: list(s.T1) + ['\0'], 2: list(s.T2) + ['\0']}
            for ln, at, pat in edits:
                for i, ch in enumerate(pat): txt[ln][at + i] = ch
            V = {}; pc = []; P = {}
            for ln in (1, 2):
                o = ex.obj(st, 'line'); P[ln] = o
                for i, ch in enumerate(txt[ln]):
                    if ch == '@': c = z3.Int('c%d_%d' % (ln, i)); V[ln, i] = c; pc += [z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90))]; st.mem[o.obj][i] = c
                    elif ch == '#': c = z3.Int('c%d_%d' % (ln, i)); V[ln, i] = c; pc += [c >= 48, c <= 57]; st.mem[o.obj][i] = c
                    else: st.mem[o.obj][i] = ord(ch)
            sat = ex.obj(st, 'sat'); s.calls = 0
            def chk(e, q, a): return 0
            def atoi(e, q, a):
                p = a[0]; cells = q.mem.get(p.obj); i = p.off
                if cells is None or not isconc(i): raise Unsupported('atoi of an unknown string')
                def cell(k):
                    if k not in cells: raise Unsupported('atoi reads an uninitialised byte')
                    return cells[k]
                def dig(c): return (48 <= c <= 57) if isconc(c) else True
                while isconc(cell(i)) and (cell(i) == 32 or 9 <= cell(i) <= 13): i += 1
                neg = False
                if isconc(cell(i)) and cell(i) in (43, 45): neg = cell(i) == 45; i += 1
                v = 0; n = 0
                while dig(cell(i)):
                    v = v * 10 + (cell(i) - 48); i += 1; n += 1
                if n > 9: raise Unsupported('atoi of more than nine digits')
                v = -v if neg else v
                return z3.simplify(v) if not isconc(v) else v
            def memcpy(e, q, a):
                d, sr, n = a[0], a[1], a[2]
                if not isconc(n) or not isconc(d.off) or not isconc(sr.off) or sr.obj not in q.mem: raise Unsupported('memcpy')
                for k in range(n):
                    if sr.off + k in q.mem[sr.obj]: q.mem[d.obj][d.off + k] = q.mem[sr.obj][sr.off + k]
            ex.contracts = {'tle_checksum': chk, 'atoi': atoi, 'llvm.memcpy.p0.p0.i64': memcpy, 'memcpy': memcpy}
            outs = ex.run([ex.start('parse_elements', [P[1], P[2], sat], st, pc)])
            def D(ln, at, n):
                """value of n columns as an integer (blank = leading)"""
                v = 0
                for i in range(at, at + n):
                    ch = txt[ln][i]
                    if ch in '. ': continue
                    v = v * 10 + (V[ln, i] - 48 if ch == '#' else int(ch))
                return v if isconc(v) else z3.ToReal(v)
            for n, q in enumerate(outs):
                for f in want:
                    x = q.mem[sat.obj].get(off[f] if f in off else off['xincl'] + 8 * int(f[2]))
                    if x is None: s.obls.append(('%s/%s %s is written' % (s.name, label, f), 'failed', 'z3', '')); continue
                    s.decide(ex, q, s.value(f, txt, D, V, zr(x)), '%s %s' % (label, f))
                s.decide(ex, q, zi(q.ret) == 0, label + ' accepted')
            s.close(ex, label, outs)
    def value(s, f, txt, D, V, x):
        tol = Fraction(1, 10 ** 14)
        def near(w, c=Fraction(1), sign=1):
            w = zr(w) * zr(c); lo, hi = w * zr(1 - tol), w * zr(1 + tol)
            return z3.And(x >= lo, x <= hi) if sign > 0 else z3.And(-x >= lo, -x <= hi)
        if f in STATEV:
            ln, at = STATEV[f]; v = 0
            for i in range(at + 1, at + 9): c = V[ln, i] if (ln, i) in V else ord(txt[ln][i]); v = v * 36 + (z3.If(c <= 57, c - 48, c - 55) if not isconc(c) else c - 48 if c <= 57 else c - 55)
            sg = -1 if txt[ln][at] == '-' else 1
            return x == sg * zr(v) if ln == 1 else near(v, Fraction(1, 10 ** 4), sg)
        deg = PI_ / 180; day = 1440
        if f == 'xincl': return near(D(2, 8, 8), deg / 10 ** 4)
        if f == 'xnodeo': return near(D(2, 17, 8), deg / 10 ** 4)
        if f == 'omegao': return near(D(2, 34, 8), deg / 10 ** 4)
        if f == 'xmo': return near(D(2, 43, 8), deg / 10 ** 4)
        if f == 'eo': return near(D(2, 26, 7), Fraction(1, 10 ** 7))
        if f == 'xno': return near(D(2, 52, 11), 2 * PI_ / day / 10 ** 8)
        if f == 'xndt2o': return near(D(1, 35, 8), 2 * PI_ / day ** 2 / 10 ** 8, -1 if txt[1][33] == '-' else 1)
        if f in ('xndd6o', 'bstar'):
            at = 44 if f == 'xndd6o' else 53; u = 2 * PI_ / day ** 3 if f == 'xndd6o' else Fraction(1); sg = -1 if txt[1][at] == '-' else 1
            m = D(1, at + 1, 5); e = txt[1][at + 7]; es = -1 if txt[1][at + 6] == '-' else 1
            if e != '#': return near(m, u * Fraction(10) ** (es * int(e) - 5), sg)
            return z3.And(*[z3.Implies(V[1, at + 7] == 48 + k, near(m, u * Fraction(10) ** (es * k - 5), sg)) for k in range(10)])
        if f == 'epoch':
            yy = D(1, 18, 2); yy = z3.ToInt(yy) if not isconc(yy) else zi(yy); y = z3.If(yy < 57, 2000 + yy, 1900 + yy); p = y - 1
            jan0 = 365 * p + p / 4 - p / 100 + p / 400                                  # days of the proleptic Gregorian calendar before the year
            w = z3.ToReal(jan0) + z3.Q(3442849, 2) + D(1, 20, 12) * z3.Q(1, 10 ** 8); e = z3.Q(1, 10 ** 11)     # 0001-01-01 is JD 1721425.5; day 1 is January 1st
            return z3.And(x - w <= e, w - x <= e)
ANG = {'xincl': 8, 'xnodeo': 17, 'omegao': 34, 'xmo': 43}
def runs():
    R = []
    full = [(2, a, '###.####') for a in ANG.values()] + [(2, 26, '#######'), (2, 51, ' ##.########'), (1, 35, '########'), (1, 20, '###.########')]
    R.append(('all digits', [('all digits free', full, ['xincl', 'xnodeo', 'omegao', 'xmo', 'eo', 'xno', 'xndt2o', 'bstar', 'xndd6o'])]))
    R.append(('epoch', [('year %s' % n, [(1, 18, p), (1, 20, d)], ['epoch']) for n, p in (('two digits', '##'), ('blank first digit', ' #')) for d in ('###.########', ' ##.########', '  #.########')]))
    R.append(('angles', [('%s %s' % (f, p), [(2, a, p)], [f]) for f, a in ANG.items() for p in ('###.####', ' ##.####', '  #.####')]))
    R.append(('motion and derivative', [('mean motion ' + p, [(2, 51, ' ' + p)], ['xno']) for p in ('##.########', ' #.########')] + [('first derivative %r' % p, [(1, 33, p + '.########')], ['xndt2o']) for p in ' -+0']))
    for k in range(6):
        base = [(ln, at, '+0' + '%07d' % (1234567 + at)) for ln, at in STATEV.values()] + [(1, 62, 'H')]
        R.append(('state vector %d' % k, [('component %d %s' % (k, sg), base + [STATEV['sv%d' % k] + (sg + '@' * 8,)], ['sv%d' % j for j in range(6)]) for sg in '+-']))
    for f, at in (('xndd6o', 44), ('bstar', 53)):
        R.append((f, [('%s %r %r' % (f, a, b), [(1, at, a + '#####' + b + '#')], [f]) for a in ' -+' for b in '-+ ']))
    return R

# ------------------------------------------------------------------ native
def native(asan=True):
    exe = build.tmp() + ('/tlefals_a' if asan else '/tlefals')
    for e, fl in ((build.tmp() + '/tlefals_a', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']), (build.tmp() + '/tlefals', ['-O2'])):
        if not os.path.exists(e): build.run(['gcc', '-w', '-I' + build.SRC] + fl + [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tlefals.c')] + ['%s/%s.c' % (build.SRC, n) for n in build.allsrc()] + ['-o', e, '-lm'])
    return exe
def call(args, asan, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    try: r = subprocess.run([native(asan)] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return [dict(contract='element parser', clause='terminates', input=' '.join(args), code='no answer in %d s' % timeout, contract_value='returns')], 0
    bad = []; n = 0
    for l in r.stdout.splitlines():
        if l.startswith('FAIL|'): _, c, i, g, w = (l.split('|') + [''] * 5)[:5]; bad.append(dict(contract='element parser', clause=c, input=i, code=g, contract_value=w))
        mm = re.match(r'(\d+) evaluations', l)
        if mm: n = int(mm.group(1))
    if not r.stdout.strip().endswith('evaluations') and not bad:
        e = re.search(r'(ERROR: AddressSanitizer.*|.*runtime error.*|.*Assertion.*)', r.stderr); bad.append(dict(contract='element parser', clause='memory safety and normal return', input='native run ' + ' '.join(args), code=(e.group(1)[:300] if e else 'exit code %d' % r.returncode), contract_value='returns without error'))
    return bad, n
def replay(prop, lines):
    b, _ = call(['replay', prop, lines[0].hex() or '00', lines[1].hex() or '00'], True, 30)
    if b and 'native run' in b[0]['input']: b[0]['input'] = '%r / %r' % tuple(lines)
    return b[0] if b else None
def search(prop):
    b, _ = call([prop, '7', '1', '0', '1'], prop == 'C06', 300); return b[0] if b else None
class Native(Part):
    weight = 8
    def __init__(s, prop, i, of): s.prop, s.i, s.of = prop, i, of; Part.__init__(s, 'compiled parser %d/%d' % (i, of), [])
    def prepare(s): native()
    def run(s, seed, tier):
        t = time.time(); bad, n = call([s.prop, str(seed), '3' if tier == 'thorough' else '1', str(s.i), str(s.of)], s.prop != 'C05', 2500 if tier == 'thorough' else 400)
        return dict(obls=[], functions={}, violations=[dict(b, obligation=[], replayed=True) for b in bad[:2]], solver={'native': time.time() - t}, evaluations=n, samples=[dict(part=s.name, evaluations=n)] if s.i == 0 else [], notes=[], bounded=[])

C04 = [Native('C04', i, 2) for i in range(2)] + [Cbmc('C04', 'checksum', ['tle_checksum'], [dict(name='checksum', harness=CHECK), dict(name='checksum of 69 columns', harness=CHECK, defs=['-DN1=69'])], 30),
       Cbmc('C04', 'status', ['parse_elements'], [dict(name='status', harness=STATUS, stub=True)], 25), Cbmc('C04', 'status, lines of 69 columns', ['parse_elements'], [dict(name='status69', harness=STATUS, stub=True, defs=['-DN1=69', '-DN2=69'])], 25)] + \
      [Cbmc('C04', 'short lines %d' % k, ['tle_checksum', 'parse_elements'], [dict(name='length %d' % n, harness=CHECK, defs=['-DN1=%d' % n]) for n in range(k, 69, 6)]) for k in range(6)]
C05 = [Native('C05', i, 4) for i in range(4)] + [Cbmc('C05', 'catalogue number', ['parse_elements'], [dict(name='catalogue', harness=CATALOGUE, stub=True, unwind=71)], 20), Cbmc('C05', 'distinct catalogue numbers', [], [dict(name='distinct', harness=DISTINCT)], 20),
       Cbmc('C05', 'integer and text fields', ['parse_elements'], [dict(name='fields', harness=INTS, stub=True, unwind=71)], 20)] + [Decode(n, r) for n, r in runs()]
C06 = [Native('C06', i, 3) for i in range(3)] + [Cbmc('C06', 'safety of the checksum %d' % k, ['tle_checksum'], [dict(name='checksum length %d' % n, harness=CHECK, defs=['-DN1=%d' % n], flags=SAFETY) for n in range(70 - k, -1, -8)]) for k in range(8)] + \
      [Cbmc('C06', 'safety of the parser %d %d' % nn, ['parse_elements'], [dict(name='lengths %d %d' % nn, harness=STATUS, stub=True, defs=['-DN1=%d' % nn[0], '-DN2=%d' % nn[1]], flags=SAFETY)], 40) for nn in ((70, 70), (69, 69), (69, 70), (70, 69))] + \
      [Cbmc('C06', 'safety of the parser on short lines %d' % k, ['parse_elements'], [dict(name='lengths %d %d' % nn, harness=STATUS, stub=True, defs=['-DN1=%d' % nn[0], '-DN2=%d' % nn[1]], flags=BOUNDS) for n in range(k, 69, 8) for nn in ((n, 70), (70, n))], 20) for k in range(8)]
