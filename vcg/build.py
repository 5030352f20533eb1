"""Compiles the current sources of /repo: LLVM IR for the VC generator, a native library for replays."""
import os, subprocess, tempfile, shutil, atexit, ctypes, hashlib
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
HPX = REPO + '/HealpixC'
CLANG = '/usr/bin/clang-18'
CFLAGS = ['-w', '-ffp-contract=off', '-I' + HPX, '-I' + SRC]
NUM = ['basics', 'common', 'deep', 'get_el', 'sgp', 'sgp4', 'sgp8', 'sdp4', 'sdp8', 'observe', 'lmst_hr', 'lpsun_radec', 'skysep_h',
       'dechalat2alt', 'mjd2date', 'date2mjd_nf', 'earthtilt', 'zenith_site_ra']
_tmp = None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vsat_')
        d = _tmp
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _tmp

class BuildError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-3000:])
    return r.stdout

def allsrc():
    """all translation units of the library in the current tree (main programs and the Windows file excluded)"""
    out = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.c') and f[:-2] not in ('sat_skymap', 'sat_visibility', 'mjdnow', 'dynamic'): out.append(f[:-2])
    return out

def ir(name, defs=(), opt=False):
    """path of the .ll of SRC/name.c (or of an absolute path)"""
    path = name if name.startswith('/') else '%s/%s.c' % (SRC, name)
    out = '%s/%s_%s.ll' % (tmp(), os.path.basename(path)[:-2], hashlib.md5(repr((path, defs, opt)).encode()).hexdigest()[:6])
    if not os.path.exists(out):
        run([CLANG, '-O0', '-fgnu89-inline', '-S', '-emit-llvm', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names'] + CFLAGS + list(defs) + [path, '-o', out])
        if opt: run(['opt-18', '-S', '-passes=mem2reg', out, '-o', out])
    return out

_mods = {}
def module(name, defs=(), opt=True):
    from . import llir
    k = (name, tuple(defs), opt)
    if k not in _mods: _mods[k] = llir.Mod(open(ir(name, defs, opt)).read(), os.path.basename(name))
    return _mods[k]

def program(names=None, opt=True):
    from .exec import Program
    return Program([module(n, (), opt) for n in (names or allsrc())])

def native(extra='', name='native', cflags=('-O2',), libs=True, cc='gcc'):
    """shared library of all library sources plus the C text `extra` (which may #include the tools)"""
    so = '%s/%s.so' % (tmp(), name)
    if not os.path.exists(so):
        srcs = ['%s/%s.c' % (SRC, n) for n in allsrc()] if libs else []
        if extra:
            w = '%s/%s_extra.c' % (tmp(), name)
            open(w, 'w').write(extra); srcs.append(w)
            if name in ('sat_skymap', 'sat_visibility'): srcs.append(HPX + '/chealpix.c')
        run([cc, '-shared', '-fPIC', '-w'] + list(cflags) + ['-I' + HPX, '-I' + SRC] + srcs + ['-o', so, '-lm'])
    return ctypes.CDLL(so)

def struct_offsets(header, typ, fields, name, var=False):
    """byte offsets of the fields of a struct of the current sources (missing fields are absent); key '' is the size"""
    d = tmp()
    good = {}
    txt = '#include <stdio.h>\n#include <stddef.h>\n' + header
    if var: body = '#undef main\nint main(void){printf("%%zu\\n", sizeof(%s));' % typ + ''.join('printf("%%zu\\n", (size_t)((char*)&%s.%s - (char*)&%s));' % (typ, f, typ) for f in fields) + 'return 0;}\n'
    else: body = 'int main(void){printf("%%zu\\n", sizeof(%s));' % typ + ''.join('printf("%%zu\\n", offsetof(%s, %s));' % (typ, f) for f in fields) + 'return 0;}\n'
    open('%s/off_%s.c' % (d, name), 'w').write(txt + body)
    try: run(['gcc', '-w', '-I' + SRC, '-I' + HPX, '%s/off_%s.c' % (d, name), '-o', '%s/off_%s' % (d, name), '-lm'] + (['-Wl,--unresolved-symbols=ignore-all'] if var is not False else []))
    except BuildError as e:
        from .llir import Unsupported
        raise Unsupported('layout of %s: %s' % (typ, str(e)[-300:]))
    v = [int(x) for x in run(['%s/off_%s' % (d, name)]).split()]
    return dict(zip([''] + list(fields), v))
