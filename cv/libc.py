"""Models of the C library, netCDF and FFTW calls used by the command-line modules: formatted text with symbolic numbers
(decimal text of a symbolic number is a unique token that parses back to it), a virtual file system, getopt, qsort,
netCDF data sets and exact discrete Fourier transforms.  All are trusted."""
import re
from fractions import Fraction
from . import expr as E
from .cfront import tint, tflt, tcpx, tptr, VOID

def _I():
    from . import interp
    return interp
def _B():
    from . import builtins
    return builtins
def cstr(s, p): return _B().cstr(s, p)
def putstr(s, p, b): return _B().putstr(s, p, b)

class State: pass
def st(s):
    """per-path state (reset with the interpreter)"""
    x = getattr(s, 'libc', None)
    if x is None or x.path is not s.path:
        x = State(); x.path = s.path
        x.tok = {}; x.rev = {}; x.fs = {'.': 'dir'}; x.files = {}; x.nc = {}; x.ncid = 65536; x.fft = {}; x.strtok = None; x.gopt = None; x.dirs = {}; x.errno = None; x.cap = None; x.ctype = None
        s.libc = x
    return x

# ---------------------------------------------------------------- numbers <-> text
def token(s, v, isint=False):
    x = st(s); k = (v.id, isint)
    if k in x.rev: return x.rev[k]
    n = len(x.tok)
    # cosmetic size/sign only; the text stands for the symbolic value
    t = ('7%07d' % (3141+n)) if isint else '7.%05de0' % (3141+n)
    x.tok[t] = v; x.rev[k] = t
    return t
NUM = re.compile(rb'[ \t\n\r\f\v]*([+-]?)((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|inf(?:inity)?|nan)', re.I)
INT = re.compile(rb'[ \t\n\r\f\v]*([+-]?)(\d+)')
def scan_num(s, b, pos=0):
    """(value node, end) or None"""
    m = NUM.match(b, pos)
    if not m: return None
    t = m.group(2).decode(); x = st(s)
    if t in x.tok: v = x.tok[t]
    elif t.lower()[0] == 'i': v = E.INF
    elif t.lower()[0] == 'n': v = E.var('nan')
    else:
        v = E.const(Fraction(t))
    if m.group(1) == b'-': v = E.neg(v)
    return v, m.end()
def scan_int(s, b, pos=0):
    m = INT.match(b, pos)
    if not m: return None
    t = m.group(2).decode(); x = st(s)
    v = x.tok[t] if t in x.tok else int(t)
    if m.group(1) == b'-': v = -v if isinstance(v, int) else E.neg(v)
    return v, m.end()
SPEC = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L|q)?([diouxXeEfFgGaAcspn%])')
def fmt(s, f, args):
    """C format string -> bytes"""
    out = bytearray(); i = 0; args = list(args)
    while i < len(f):
        j = f.find(b'%', i)
        if j < 0: out += f[i:]; break
        out += f[i:j]
        m = SPEC.match(f, j)
        if not m: raise _I().Unsupported('format %r' % f[j:j+10])
        i = m.end(); fl, w, pr, ln, c = m.groups(); c = c.decode(); fl = (fl or b'').decode()
        if c == '%': out += b'%'; continue
        if w == b'*':
            w = args.pop(0)
            if w < 0: fl += '-'; w = -w
        else: w = int(w) if w else 0
        if pr == b'*': pr = args.pop(0)
        elif pr is not None: pr = int(pr)
        if not args: raise _I().UB('too few arguments for format')
        v = args.pop(0)
        if c == 's':
            if isinstance(v, int) or v.o is None: t = b'(null)'
            else: t = cstr(s, v)
            if pr is not None: t = t[:pr]
        elif c == 'c':
            if not isinstance(v, int): raise _I().Unsupported('symbolic %c')
            t = bytes([v & 255])
        elif c == 'p': t = b'0x1'
        elif c in 'diuoxX':
            if isinstance(v, E.Node):
                if v.op == 'c' and v.data[0].denominator == 1: v = int(v.data[0])
                else: t = token(s, v, True).encode()
            if isinstance(v, int):
                if c == 'u' or c == 'i': c = 'd'
                t = (('%' + fl.replace('-', '').replace('0', '') + ('.%d' % pr if pr is not None else '') + c) % v).encode()
                if '0' in fl and '-' not in fl and pr is None: t = t.rjust(w, b'0')
        else:
            if isinstance(v, int): v = E.const(v)
            if v is E.INF: t = b'inf'
            elif v.op == 'c' and v.real:
                q = v.data[0]
                t = ('%' + fl.replace('-', '') + ('.%d' % pr if pr is not None else '') + c) % float(q)
                # text that loses digits of an exact constant still denotes that constant (rounding is not modelled)
                if Fraction(t) != q:
                    x = st(s)
                    if not (Fraction(t) in (0,)): x.tok.setdefault(t.lstrip('+-'), v if q > 0 else E.neg(v))
                t = t.encode()
            else: t = token(s, v).encode()
        t = t.ljust(w) if '-' in fl else t.rjust(w)
        out += t
    return bytes(out)
def newstr(s, b, name='str'):
    o = s.new(len(b)+1, name); o.heap = True; p = _I().Ptr(o, 0); putstr(s, p, b); return p

def f_asprintf(s, a, n):
    b = fmt(s, cstr(s, a[1]), a[2:]); s.store(a[0].o, a[0].off, tptr(VOID), newstr(s, b, 'asprintf')); return len(b)
def f_sprintf(s, a, n):
    b = fmt(s, cstr(s, a[1]), a[2:]); putstr(s, a[0], b); return len(b)
def f_snprintf(s, a, n):
    b = fmt(s, cstr(s, a[2]), a[3:])
    if a[1] > 0: putstr(s, a[0], b[:a[1]-1])
    return len(b)
def f_printf(s, a, n):
    x = st(s)
    if x.cap is None: return 0
    b = fmt(s, cstr(s, a[0]), a[1:]); fput(s, x.cap, b); return len(b)
def f_puts(s, a, n):
    x = st(s)
    if x.cap is None: return 0
    fput(s, x.cap, cstr(s, a[0]) + b'\n'); return 1
def f_putchar(s, a, n):
    x = st(s)
    if x.cap is None: return 0
    fput(s, x.cap, bytes([a[0] & 255])); return a[0]
def f_sscanf(s, a, n): return scanf(s, cstr(s, a[0]), cstr(s, a[1]), a[2:])[0]
def scanf(s, b, f, args):
    args = list(args); pos = 0; cnt = 0; i = 0
    WS = b' \t\n\r\f\v'
    while i < len(f):
        c = f[i:i+1]
        if c in WS and c:
            while pos < len(b) and b[pos] in WS: pos += 1
            i += 1; continue
        if c != b'%':
            if pos < len(b) and b[pos] == f[i]: pos += 1; i += 1; continue
            return (cnt if cnt or pos < len(b) else -1), pos
        m = re.compile(rb'%(\*?)(\d*)(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^\]]*\]|[diuoxXeEfFgGcsn%])').match(f, i)
        if not m: raise _I().Unsupported('scanf format')
        i = m.end(); sup, w, ln, c = m.groups(); c0 = chr(c[0]); w = int(w) if w else None
        if c0 == '%':
            while pos < len(b) and b[pos] in WS: pos += 1
            if b[pos:pos+1] != b'%': return cnt, pos
            pos += 1; continue
        if c0 == 'n':
            p = args.pop(0); s.store(p.o, p.off, tint(4), pos); continue
        if c0 not in 'c[':
            while pos < len(b) and b[pos] in WS: pos += 1
        if pos >= len(b): return (cnt if cnt else -1), pos
        lim = b if w is None else b[:pos+w]
        if c0 in 'eEfFgG': r = scan_num(s, lim, pos)
        elif c0 in 'diu': r = scan_int(s, lim, pos)
        elif c0 == 's':
            e = pos
            while e < len(lim) and lim[e] not in WS: e += 1
            r = (b[pos:e], e)
        elif c0 == 'c': r = (b[pos:pos+(w or 1)], pos+(w or 1)) if pos+(w or 1) <= len(b) else None
        elif c0 == '[':
            body = c[1:-1]; neg = body[:1] == b'^'
            if neg: body = body[1:]
            body = re.sub(rb'(.)-(.)', lambda q: bytes(range(q.group(1)[0], q.group(2)[0]+1)), body, flags=re.S)
            e = pos
            while e < len(lim) and ((lim[e] in body) != neg): e += 1
            r = (b[pos:e], e) if e > pos else None
        else: raise _I().Unsupported('scanf %' + c0)
        if r is None: return cnt, pos
        pos = r[1]
        if sup: continue
        p = args.pop(0)
        if c0 in 'eEfFgG': s.store(p.o, p.off, tflt(8 if ln == b'l' else 4), r[0])
        elif c0 in 'diu': s.store(p.o, p.off, tint({b'hh': 1, b'h': 2, b'l': 8, b'll': 8, b'z': 8, b'j': 8, b't': 8}.get(ln, 4), c0 != 'u' and ln != b'z'), r[0])
        elif c0 == 'c':
            for k, ch in enumerate(r[0]): s.store(p.o, p.off+k, tint(1), ch)
        else: putstr(s, p, r[0])
        cnt += 1
    return cnt, pos
def f_atof(s, a, n):
    r = scan_num(s, cstr(s, a[0])); return r[0] if r else E.ZERO
def f_atoi(s, a, n):
    r = scan_int(s, cstr(s, a[0])); return r[0] if r else 0
def f_strtod(s, a, n):
    r = scan_num(s, cstr(s, a[0])); P = _I().Ptr
    if not isinstance(a[1], int) and a[1].o is not None: s.store(a[1].o, a[1].off, tptr(VOID), P(a[0].o, a[0].off + (r[1] if r else 0)))
    return r[0] if r else E.ZERO
def f_strtol(s, a, n):
    r = scan_int(s, cstr(s, a[0])); P = _I().Ptr
    if not isinstance(a[1], int) and a[1].o is not None: s.store(a[1].o, a[1].off, tptr(VOID), P(a[0].o, a[0].off + (r[1] if r else 0)))
    return r[0] if r else 0

# ---------------------------------------------------------------- characters and strings
def f_tolower(s, a, n): return a[0]+32 if 65 <= a[0] <= 90 else a[0]
def f_toupper(s, a, n): return a[0]-32 if 97 <= a[0] <= 122 else a[0]
def f_ctype(s, a, n):
    x = st(s); I = _I()
    if x.ctype is None:
        o = s.new(384*2, 'ctype')
        for c in range(-128, 256):
            v = 0
            if 0 <= c < 128:
                ch = chr(c)
                if ch.isupper(): v |= 256
                if ch.islower(): v |= 512
                if ch.isalpha(): v |= 1024
                if ch.isdigit(): v |= 2048
                if ch in '0123456789abcdefABCDEF': v |= 4096
                if ch in ' \t\n\r\f\v': v |= 8192
                if 32 <= c < 127: v |= 16384
                if 33 <= c < 127: v |= 32768
                if ch in ' \t': v |= 1
                if c < 32 or c == 127: v |= 2
                if 33 <= c < 127 and not ch.isalnum(): v |= 4
                if ch.isalnum(): v |= 8
            o.cells[(c+128)*2] = v
        h = s.new(8, 'ctypep'); h.cells[0] = I.Ptr(o, 256); x.ctype = I.Ptr(h, 0)
    return x.ctype
def isf(f):
    return lambda s, a, n: int(0 <= a[0] < 128 and bool(f(chr(a[0]))))
def f_strrchr(s, a, n):
    b = cstr(s, a[0]) + b'\0'; i = b.rfind(bytes([a[1] & 255]))
    return _I().NULL if i < 0 else _I().Ptr(a[0].o, a[0].off+i)
def f_strcat(s, a, n):
    b = cstr(s, a[0]); putstr(s, _I().Ptr(a[0].o, a[0].off+len(b)), cstr(s, a[1])); return a[0]
def f_strncpy(s, a, n):
    b = cstr(s, a[1])[:a[2]]
    for i in range(a[2]): s.store(a[0].o, a[0].off+i, tint(1), b[i] if i < len(b) else 0)
    return a[0]
def f_strcasecmp(s, a, n):
    x, y = cstr(s, a[0]).lower(), cstr(s, a[1]).lower(); return (x > y) - (x < y)
def f_strncasecmp(s, a, n):
    x, y = cstr(s, a[0]).lower()[:a[2]], cstr(s, a[1]).lower()[:a[2]]; return (x > y) - (x < y)
def f_memcmp(s, a, n):
    for i in range(a[2]):
        x, y = s.load(a[0].o, a[0].off+i, tint(1, False)), s.load(a[1].o, a[1].off+i, tint(1, False))
        if x != y: return -1 if x < y else 1
    return 0
def f_strcspn(s, a, n):
    b, c = cstr(s, a[0]), cstr(s, a[1]); i = 0
    while i < len(b) and b[i] not in c: i += 1
    return i
def f_strtok(s, a, n):
    x = st(s); I = _I()
    if x.strtok is None: o = s.new(8, 'strtok'); o.cells[0] = I.NULL; x.strtok = I.Ptr(o, 0)
    return _B().f_strtok_r(s, [a[0], a[1], x.strtok], n)
def f_basename(s, a, n):
    b = cstr(s, a[0]); i = b.rstrip(b'/').rfind(b'/'); return _I().Ptr(a[0].o, a[0].off+i+1)
def f_errno(s, a, n):
    x = st(s)
    if x.errno is None: o = s.new(4, 'errno'); o.cells[0] = 0; x.errno = _I().Ptr(o, 0)
    return x.errno
def seterr(s, v): p = f_errno(s, (), None); s.store(p.o, 0, tint(4), v)
def f_strerror(s, a, n): return newstr(s, b'error')
def f_getenv(s, a, n): return _I().NULL
def f_time(s, a, n):
    return E.var('time', True, 'I') if False else 0
def f_gettimeofday(s, a, n):
    for k in (0, 8): s.store(a[0].o, a[0].off+k, tint(8), 0)
    return 0
def f_qsort(s, a, n):
    base, cnt, sz, fn = a[:4]; extra = list(a[4:]); P = _I().Ptr
    if not isinstance(cnt, int): raise _I().Unsupported('symbolic qsort')
    if cnt == 0: return None
    s.chk(base.o, base.off, cnt*sz)
    el = []
    for i in range(cnt):
        o = s.new(sz, 'elem'); s.rawcopy(o, 0, base.o, base.off+i*sz, sz); el.append(o)
    def le(p, q):
        v = callfn(s, fn, [P(p, 0), P(q, 0)] + extra)
        if isinstance(v, int): return v <= 0
        return s.path.decide(E.cmp('le', v, E.ZERO))
    out = []
    for o in el:           # stable insertion sort
        i = len(out)
        while i > 0 and not le(out[i-1], o): i -= 1
        out.insert(i, o)
    for i, o in enumerate(out): s.rawcopy(base.o, base.off+i*sz, o, 0, sz)
def callfn(s, f, args):
    tu, fd = s.prog.find_func(f.name, f.tu or s.tu)
    if f.tu is not None and f.name in f.tu.funcs and any(c.get('kind') == 'CompoundStmt' for c in f.tu.funcs[f.name].get('inner', ())): tu, fd = f.tu, f.tu.funcs[f.name]
    if fd is None: raise _I().Unsupported('callback ' + f.name)
    return s.call_fd(tu, fd, args)
def f_bsearch(s, a, n):
    P = _I().Ptr
    for i in range(a[2]):
        p = P(a[1].o, a[1].off+i*a[3])
        if callfn(s, a[4], [a[0], p]) == 0: return p
    return _I().NULL

# ---------------------------------------------------------------- files
def norm(b):
    t = b.decode('utf-8', 'replace') if isinstance(b, bytes) else b
    parts = []
    for c in t.split('/'):
        if c in ('', '.'): continue
        if c == '..' and parts: parts.pop(); continue
        parts.append(c)
    r = '/'.join(parts)
    return ('/' + r) if t.startswith('/') else (r or '.')
def parent(p): return p.rsplit('/', 1)[0] if '/' in p else '.'
class F:
    __slots__ = ('o', 'n', 'pos', 'mode', 'path', 'err', 'eof')
class FileData:
    """contents: object with byte cells + length"""
    def __init__(s, it): s.o = it.new(None, 'file'); s.n = 0
def f_fopen(s, a, n):
    x = st(s); I = _I(); p = norm(cstr(s, a[0])); m = cstr(s, a[1]).decode()
    d = x.fs.get(p)
    if d == 'dir': seterr(s, 21); return I.NULL
    if m[0] == 'r':
        if d is None: seterr(s, 2); return I.NULL
        if isinstance(d, NC): raise I.Unsupported('raw access to netCDF file')
    else:
        if x.fs.get(parent(p)) != 'dir': seterr(s, 2); return I.NULL
        if d is None or m[0] == 'w': d = x.fs[p] = FileData(s)
    h = s.new(216, 'FILE'); f = F(); f.o = d; f.pos = d.n if m[0] == 'a' else 0; f.mode = m; f.path = p; f.err = 0; f.eof = 0
    x.files[h.id] = f
    return I.Ptr(h, 0)
def fh(s, p):
    x = st(s)
    if isinstance(p, int) or p.o is None: raise _I().UB('NULL FILE')
    f = x.files.get(p.o.id)
    if f is None and p.o.name not in ('stdout', 'stderr', 'stdin'): raise _I().UB('use of a closed FILE')
    return f
def isstd(p): return p is None or (not isinstance(p, int) and (p.o is None or p.o.name in ('stderr', 'stdin', 'stdout')))
def f_fclose(s, a, n):
    p = a[0]; x = st(s)
    f = fh(s, p)
    if f is not None: del x.files[p.o.id]
    return 0
def fput(s, f, b):
    t = tint(1)
    for c in b:
        f.o.o.cells.pop(('C', f.pos), None); f.o.o.cells[f.pos] = c if c < 128 else c-256; f.pos += 1
    f.o.n = max(f.o.n, f.pos)
def wfile(s, p):
    """FILE* -> F or None (discarded output)"""
    x = st(s)
    if not isinstance(p, int) and p.o is not None and p.o.name == 'stdout': return x.cap
    if not isinstance(p, int) and p.o is not None and p.o.name == 'stderr': return None
    f = fh(s, p)
    if f is not None and f.mode[0] == 'r' and '+' not in f.mode: raise _I().UB('write to a FILE opened for reading')
    return f
def f_fprintf(s, a, n):
    f = wfile(s, a[0])
    if f is None: return 0
    b = fmt(s, cstr(s, a[1]), a[2:]); fput(s, f, b); return len(b)
def f_fputs(s, a, n):
    f = wfile(s, a[1])
    if f is not None: fput(s, f, cstr(s, a[0]))
    return 1
def f_fputc(s, a, n):
    f = wfile(s, a[1])
    if f is not None: fput(s, f, bytes([a[0] & 255]))
    return a[0]
def f_fwrite(s, a, n):
    f = wfile(s, a[3]); k = a[1]*a[2]
    if f is None or k == 0: return a[2] if k else 0
    s.chk(a[0].o, a[0].off, k)
    s.rawcopy(f.o.o, f.pos, a[0].o, a[0].off, k)
    f.pos += k; f.o.n = max(f.o.n, f.pos); return a[2]
def f_fread(s, a, n):
    f = fh(s, a[3]); sz, cnt = a[1], a[2]
    if sz == 0 or cnt == 0: return 0
    k = min(cnt, (f.o.n - f.pos)//sz)
    if k < cnt: f.eof = 1
    if k > 0:
        s.chk(a[0].o, a[0].off, k*sz); s.rawcopy(a[0].o, a[0].off, f.o.o, f.pos, k*sz); f.pos += k*sz
    return k
def f_fgetc(s, a, n):
    f = fh(s, a[0])
    if f is None or f.pos >= f.o.n:
        if f: f.eof = 1
        return -1
    c = s.load(f.o.o, f.pos, tint(1, False)); f.pos += 1
    if not isinstance(c, int): raise _I().Unsupported('binary file read as text')
    return c & 255
def f_fgets(s, a, n):
    f = fh(s, a[2]); out = bytearray()
    while len(out) < a[1]-1:
        c = f_fgetc(s, [a[2]], n)
        if c < 0: break
        out.append(c)
        if c == 10: break
    if not out: return _I().NULL
    putstr(s, a[0], bytes(out)); return a[0]
def f_getline(s, a, n):
    f = fh(s, a[2]); out = bytearray()
    while True:
        c = f_fgetc(s, [a[2]], n)
        if c < 0: break
        out.append(c)
        if c == 10: break
    if not out: return -1
    s.store(a[0].o, a[0].off, tptr(VOID), newstr(s, bytes(out))); s.store(a[1].o, a[1].off, tint(8, False), len(out)+1)
    return len(out)
def f_fscanf(s, a, n):
    f = fh(s, a[0]); b = bytearray()
    for i in range(f.pos, f.o.n): b.append(s.load(f.o.o, i, tint(1)) & 255)
    c, pos = scanf(s, bytes(b), cstr(s, a[1]), a[2:]); f.pos += pos
    return c
def f_fseek(s, a, n):
    f = fh(s, a[0]); f.pos = a[1] + (0 if a[2] == 0 else f.pos if a[2] == 1 else f.o.n); f.eof = 0; return 0
def f_ftell(s, a, n): return fh(s, a[0]).pos
def f_rewind(s, a, n): f = fh(s, a[0]); f.pos = 0; f.eof = f.err = 0
def f_ferror(s, a, n): return 0
def f_feof(s, a, n): return fh(s, a[0]).eof
def f_access(s, a, n):
    if norm(cstr(s, a[0])) in st(s).fs: return 0
    seterr(s, 2); return -1
def f_mkdir(s, a, n):
    x = st(s); p = norm(cstr(s, a[0]))
    if p in x.fs: seterr(s, 17); return -1
    if x.fs.get(parent(p)) != 'dir': seterr(s, 2); return -1
    x.fs[p] = 'dir'; return 0
def f_opendir(s, a, n):
    x = st(s); p = norm(cstr(s, a[0])); I = _I()
    if x.fs.get(p) != 'dir': seterr(s, 2); return I.NULL
    h = s.new(64, 'DIR'); x.dirs[h.id] = ['.', '..'] + sorted(q.rsplit('/', 1)[-1] for q in x.fs if q != p and q != '.' and parent(q) == p)
    return I.Ptr(h, 0)
def f_readdir(s, a, n):
    x = st(s); l = x.dirs[a[0].o.id]; I = _I()
    if not l: return I.NULL
    e = l.pop(0); o = s.new(280, 'dirent', True); putstr(s, I.Ptr(o, 19), e.encode()); return I.Ptr(o, 0)
def f_closedir(s, a, n): st(s).dirs.pop(a[0].o.id, None); return 0
def f_stat(s, a, n):
    x = st(s); d = x.fs.get(norm(cstr(s, a[0])))
    if d is None: seterr(s, 2); return -1
    p = a[1]; s.clear(p.o, p.off, 144); p.o.zr.append((p.off, p.off+144))
    s.store(p.o, p.off+24, tint(4, False), 0o040755 if d == 'dir' else 0o100644); return 0
def f_remove(s, a, n):
    x = st(s); p = norm(cstr(s, a[0]))
    if p not in x.fs: return -1
    del x.fs[p]; return 0
def f_realpath(s, a, n):
    p = norm(cstr(s, a[0])); I = _I()
    if p not in st(s).fs: seterr(s, 2); return I.NULL
    b = p.encode() if p.startswith('/') else b'/cwd/' + p.encode()
    if isinstance(a[1], int) or a[1].o is None: return newstr(s, b)
    putstr(s, a[1], b); return a[1]
def c_fs(s, a, n):
    x = st(s); x.fs = {'.': 'dir'}; x.files = {}; x.cap = None
def c_stdout(s, a, n):
    x = st(s); p = norm(cstr(s, a[0])); f = F(); f.o = x.fs[p] = FileData(s); f.pos = 0; f.mode = 'w'; f.path = p; f.err = f.eof = 0; x.cap = f
def c_getopt_reset(s, a, n):
    x = st(s); x.gopt = None
    gvar(s, 'optind').cells[0] = 1

# ---------------------------------------------------------------- getopt (GNU, permuting)
GV = {'optarg': (8, lambda: _I().NULL, tptr(VOID)), 'optind': (4, lambda: 1, tint(4)), 'optopt': (4, lambda: 0, tint(4)), 'opterr': (4, lambda: 1, tint(4)), 'environ': (8, lambda: _I().NULL, tptr(VOID))}
def gvar(s, name):
    r = s.globals_mem.get(('libc', name))
    if r is None:
        sz, v, t = GV[name]; o = s.new(sz, name); o.cells[0] = v(); s.globals_mem[('libc', name)] = r = (o, t)
    return r[0]
def f_getopt(s, a, n):
    x = st(s); I = _I(); tp = tptr(VOID)
    argc, argv, ostr = a[0], a[1], cstr(s, a[2]).decode()
    av = lambda i: s.load(argv.o, argv.off+8*i, tp)
    silent = ostr.startswith(':'); spec = {}
    k = ostr.lstrip(':+-'); i = 0
    while i < len(k):
        need = 0
        if k[i+1:i+3] == '::': need = 2
        elif k[i+1:i+2] == ':': need = 1
        spec[k[i]] = need; i += 1+need
    oi = gvar(s, 'optind')
    ind = oi.cells[0]
    if x.gopt is None or ind == 0:
        if ind == 0: ind = 1
        x.gopt = None
    if x.gopt is None:      # next element
        j = ind
        while j < argc:
            b = cstr(s, av(j))
            if len(b) > 1 and b[:1] == b'-': break
            j += 1
        if j >= argc: oi.cells[0] = ind; return -1
        if cstr(s, av(j)) == b'--':
            v = [av(q) for q in range(argc)]; v = v[:ind] + [v[j]] + v[ind:j] + v[j+1:]
            for q in range(argc): s.store(argv.o, argv.off+8*q, tp, v[q])
            oi.cells[0] = ind+1; return -1
        if j > ind:           # rotate the option element (and its argument) before the operands
            b = cstr(s, av(j)); cnt = 1
            # separate argument?
            q = 1
            while q < len(b):
                c = chr(b[q])
                if spec.get(c) == 1:
                    if q == len(b)-1: cnt = 2
                    break
                if spec.get(c) == 2: break
                q += 1
            v = [av(q) for q in range(argc)]; v = v[:ind] + v[j:j+cnt] + v[ind:j] + v[j+cnt:]
            for q in range(argc): s.store(argv.o, argv.off+8*q, tp, v[q])
        x.gopt = 1
    p = av(ind); b = cstr(s, p); c = chr(b[x.gopt]); last = x.gopt+1 >= len(b)
    oa = gvar(s, 'optarg'); oo = gvar(s, 'optopt')
    if c == ':' or c not in spec:
        oo.cells[0] = ord(c)
        if last: x.gopt = None; ind += 1
        else: x.gopt += 1
        oi.cells[0] = ind; return ord('?')
    if spec[c] == 0:
        oa.cells[0] = I.NULL
        if last: x.gopt = None; ind += 1
        else: x.gopt += 1
        oi.cells[0] = ind; return ord(c)
    if not last:
        oa.cells[0] = I.Ptr(p.o, p.off+x.gopt+1); x.gopt = None; oi.cells[0] = ind+1; return ord(c)
    x.gopt = None
    if spec[c] == 2: oa.cells[0] = I.NULL; oi.cells[0] = ind+1; return ord(c)
    if ind+1 >= argc:
        oo.cells[0] = ord(c); oi.cells[0] = ind+1; return ord(':') if silent else ord('?')
    oa.cells[0] = av(ind+1); oi.cells[0] = ind+2; return ord(c)

# ---------------------------------------------------------------- netCDF (classic model)
class NC:
    def __init__(s): s.dims = []; s.vars = []; s.atts = {}; s.define = True
class NCV:
    def __init__(s, name, t, dims): s.name = name; s.t = t; s.dims = dims; s.data = {}; s.atts = {}
NOERR, EBADDIM, ENOTVAR, ENOTATT, ENAMEINUSE, EINDEFINE, ENOTINDEFINE, EBADID, EINVALCOORDS, EEDGE, EPERM = 0, -46, -49, -43, -42, -39, -38, -33, -40, -57, -37
def ncof(s, i):
    x = st(s)
    return x.nc.get(i)
def nc_create(s, a, n):
    x = st(s); p = norm(cstr(s, a[0]))
    if x.fs.get(parent(p)) != 'dir': return 2
    if a[1] & 4 and p in x.fs: return -35
    d = x.fs[p] = NC(); x.ncid += 65536; x.nc[x.ncid] = [d, True]; s.store(a[2].o, a[2].off, tint(4), x.ncid); return 0
def nc_open(s, a, n):
    x = st(s); p = norm(cstr(s, a[0])); d = x.fs.get(p)
    if d is None: return 2
    if not isinstance(d, NC): return -51
    d.define = False
    x.ncid += 65536; x.nc[x.ncid] = [d, bool(a[1] & 1)]; s.store(a[2].o, a[2].off, tint(4), x.ncid); return 0
def nc_close(s, a, n):
    x = st(s); 
    if a[0] not in x.nc: return EBADID
    x.nc[a[0]][0].define = False; del x.nc[a[0]]; return 0
def ncdef(f):
    def g(s, a, n):
        e = ncof(s, a[0])
        if e is None: return EBADID
        if not e[1]: return EPERM
        return f(s, e[0], a)
    return g
def ncget(f):
    def g(s, a, n):
        e = ncof(s, a[0])
        if e is None: return EBADID
        return f(s, e[0], a)
    return g
def _def_dim(s, d, a):
    if not d.define: return ENOTINDEFINE
    nm = cstr(s, a[1]).decode()
    if any(x[0] == nm for x in d.dims): return ENAMEINUSE
    if not isinstance(a[2], int): raise _I().Unsupported('symbolic dimension')
    d.dims.append((nm, a[2])); s.store(a[3].o, a[3].off, tint(4), len(d.dims)-1); return 0
def _def_var(s, d, a):
    if not d.define: return ENOTINDEFINE
    nm = cstr(s, a[1]).decode()
    if any(x.name == nm for x in d.vars): return ENAMEINUSE
    dims = [s.load(a[4].o, a[4].off+4*i, tint(4)) for i in range(a[3])]
    if any(not (0 <= q < len(d.dims)) for q in dims): return EBADDIM
    d.vars.append(NCV(nm, a[2], dims)); s.store(a[5].o, a[5].off, tint(4), len(d.vars)-1); return 0
def _redef(s, d, a):
    if d.define: return EINDEFINE
    d.define = True; return 0
def _enddef(s, d, a):
    if not d.define: return ENOTINDEFINE
    d.define = False; return 0
def _inq_dimid(s, d, a):
    nm = cstr(s, a[1]).decode()
    for i, x in enumerate(d.dims):
        if x[0] == nm:
            if not isinstance(a[2], int) and a[2].o is not None: s.store(a[2].o, a[2].off, tint(4), i)
            return 0
    return EBADDIM
def _inq_dimlen(s, d, a):
    if not 0 <= a[1] < len(d.dims): return EBADDIM
    s.store(a[2].o, a[2].off, tint(8, False), d.dims[a[1]][1]); return 0
def _inq_varid(s, d, a):
    nm = cstr(s, a[1]).decode()
    for i, x in enumerate(d.vars):
        if x.name == nm: s.store(a[2].o, a[2].off, tint(4), i); return 0
    return ENOTVAR
def _var_of(d, v): return d.vars[v] if 0 <= v < len(d.vars) else None
def _inq_varndims(s, d, a):
    v = _var_of(d, a[1])
    if v is None: return ENOTVAR
    s.store(a[2].o, a[2].off, tint(4), len(v.dims)); return 0
def _inq_vardimid(s, d, a):
    v = _var_of(d, a[1])
    if v is None: return ENOTVAR
    for i, q in enumerate(v.dims): s.store(a[2].o, a[2].off+4*i, tint(4), q)
    return 0
def _inq_ndims(s, d, a): s.store(a[1].o, a[1].off, tint(4), len(d.dims)); return 0
def _inq_nvars(s, d, a): s.store(a[1].o, a[1].off, tint(4), len(d.vars)); return 0
def _inq_attid(s, d, a):
    A = _atts(d, a[1])
    if A is None: return ENOTVAR
    nm = cstr(s, a[2]).decode()
    if nm not in A: return ENOTATT
    if not isinstance(a[3], int) and a[3].o is not None: s.store(a[3].o, a[3].off, tint(4), list(A).index(nm))
    return 0
def _atts(d, v):
    if v == -1: return d.atts
    if 0 <= v < len(d.vars): return d.vars[v].atts
    return None
def _put_att(et):
    def f(s, d, a):
        A = _atts(d, a[1])
        if A is None: return ENOTVAR
        nm = cstr(s, a[2]).decode()
        if not d.define and nm not in A: return ENOTINDEFINE
        if et is None: cnt, p = a[3], a[4]; A[nm] = ('c', [s.load(p.o, p.off+i, tint(1)) for i in range(cnt)])
        else: cnt, p = a[4], a[5]; A[nm] = ('n', [s.load(p.o, p.off+i*et.size, et) for i in range(cnt)])
        return 0
    return f
def _conv(s, v, et):
    if et.k == 'int':
        if isinstance(v, E.Node):
            r = E.fn('trunc', v); return int(r.data[0]) if r.op == 'c' else r
        return v
    return E.const(v) if isinstance(v, int) else v
def _get_att(et):
    def f(s, d, a):
        A = _atts(d, a[1])
        if A is None: return ENOTVAR
        nm = cstr(s, a[2]).decode()
        if nm not in A: return ENOTATT
        k, v = A[nm]; p = a[3]
        if et is None:
            for i, c in enumerate(v): s.store(p.o, p.off+i, tint(1), c)
        else:
            for i, c in enumerate(v): s.store(p.o, p.off+i*et.size, et, _conv(s, c, et))
        return 0
    return f
def _inq_attlen(s, d, a):
    A = _atts(d, a[1])
    if A is None: return ENOTVAR
    nm = cstr(s, a[2]).decode()
    if nm not in A: return ENOTATT
    s.store(a[3].o, a[3].off, tint(8, False), len(A[nm][1])); return 0
def _cells(s, d, v, st_, ct):
    """linear indices of the hyperslab in row-major order"""
    sh = [d.dims[q][1] for q in v.dims]
    if st_ is None: st_, ct = [0]*len(sh), sh
    for x, c, m in zip(st_, ct, sh):
        if x > m or (x == m and c > 0): return EINVALCOORDS
        if x + c > m: return EEDGE
    idx = [0]
    for x, c, m in zip(st_, ct, sh): idx = [i*m + x + k for i in idx for k in range(c)]
    return idx
def _slab(s, v, a):
    r = len(v.dims)
    return [s.load(a[2].o, a[2].off+8*i, tint(8, False)) for i in range(r)], [s.load(a[3].o, a[3].off+8*i, tint(8, False)) for i in range(r)]
def _put_var(et, slab):
    def f(s, d, a):
        if d.define: return EINDEFINE
        if not 0 <= a[1] < len(d.vars): return ENOTVAR
        v = d.vars[a[1]]; S = _slab(s, v, a) if slab else (None, None); p = a[4 if slab else 2]
        idx = _cells(s, d, v, *S)
        if isinstance(idx, int): return idx
        s.chk(p.o, p.off, len(idx)*et.size)
        it = tint(4) if v.t in (1, 3, 4) else tflt(8)
        for k, i in enumerate(idx): v.data[i] = _conv(s, s.load(p.o, p.off+k*et.size, et), it)
        return 0
    return f
def _get_var(et, slab):
    def f(s, d, a):
        if d.define: return EINDEFINE
        if not 0 <= a[1] < len(d.vars): return ENOTVAR
        v = d.vars[a[1]]; S = _slab(s, v, a) if slab else (None, None); p = a[4 if slab else 2]
        idx = _cells(s, d, v, *S)
        if isinstance(idx, int): return idx
        s.chk(p.o, p.off, len(idx)*et.size)
        for k, i in enumerate(idx):
            c = v.data.get(i)
            if c is None: c = E.const(Fraction(9969209968386869046778552952102584320)) if v.t in (5, 6) else -2147483647
            s.store(p.o, p.off+k*et.size, et, _conv(s, c, et))
        return 0
    return f
def nc_strerror(s, a, n): return newstr(s, b'netCDF error')

# ---------------------------------------------------------------- FFTW
def fft_malloc(s, a, n): return _B().f_malloc(s, a, n)
def plan(kind, esz):
    def f(s, a, n):
        x = st(s); h = s.new(8, 'plan'); x.fft[h.id] = (kind, esz, a[0], a[1], a[2])
        if not isinstance(a[0], int): raise _I().Unsupported('symbolic FFT length')
        return _I().Ptr(h, 0)
    return f
def root(k, n):
    k %= n
    th = E.mul(E.const(Fraction(2*k, n)), E.PI)
    return E.add(E.fn('cos', th, real=True), E.mul(E.I, E.fn('sin', th, real=True)))
def _dft_r2c(x):
    n = len(x); out = []
    for k in range(n//2+1):
        r = E.ZERO
        for j in range(n): r = E.add(r, E.mul(x[j], E.conj(root(j*k, n))))
        out.append(r)
    return out
def _dft_c2r(X, n):
    out = []
    for j in range(n):
        r = E.re(X[0])
        for k in range(1, (n+1)//2): r = E.add(r, E.mul(E.const(2), E.re(E.mul(X[k], root(j*k, n)))))
        if n % 2 == 0: r = E.add(r, E.mul(E.const(1 if j % 2 == 0 else -1), E.re(X[n//2])))
        out.append(r)
    return out
def f_execute(s, a, n):
    x = st(s); p = x.fft.get(a[0].o.id)
    if p is None: raise _I().UB('execute of destroyed plan')
    kind, e, N, i, o = p
    if N > 64: raise _I().Unsupported('FFT length %d' % N)
    if kind == 'r2c':
        v = _dft_r2c([s.load(i.o, i.off+e*k, tflt(e)) for k in range(N)])
        for k, c in enumerate(v): s.store(o.o, o.off+2*e*k, tcpx(2*e), c)
    else:
        v = _dft_c2r([s.load(i.o, i.off+2*e*k, tcpx(2*e)) for k in range(N//2+1)], N)
        for k in range(N//2+1): s.store(i.o, i.off+2*e*k, tcpx(2*e), s.fresh('destroyed_by_c2r', False))      # documented: c2r destroys its input
        for k, c in enumerate(v): s.store(o.o, o.off+e*k, tflt(e), c)
def f_destroy(s, a, n):
    st(s).fft.pop(a[0].o.id, None)

z = lambda v: (lambda s, a, n: v)
TAB = {
 'asprintf': f_asprintf, 'sprintf': f_sprintf, 'snprintf': f_snprintf, 'printf': f_printf, 'puts': f_puts, 'putchar': f_putchar, 'fprintf': f_fprintf,
 'sscanf': f_sscanf, '__isoc99_sscanf': f_sscanf, '__isoc23_sscanf': f_sscanf, 'fscanf': f_fscanf, '__isoc99_fscanf': f_fscanf, '__isoc23_fscanf': f_fscanf,
 'atof': f_atof, 'atoi': f_atoi, 'atol': f_atoi, 'strtod': f_strtod, 'strtol': f_strtol, 'strtoul': f_strtol, 'strtof': f_strtod, '__isoc23_strtol': f_strtol, '__isoc23_strtoul': f_strtol, 'strtoll': f_strtol,
 'tolower': f_tolower, 'toupper': f_toupper, '__ctype_b_loc': f_ctype, 'isalpha': isf(str.isalpha), 'isalnum': isf(str.isalnum), 'isupper': isf(str.isupper), 'islower': isf(str.islower),
 'isprint': isf(str.isprintable), 'ispunct': isf(lambda c: '!' <= c <= '~' and not c.isalnum()), 'isxdigit': isf(lambda c: c in '0123456789abcdefABCDEF'),
 'strrchr': f_strrchr, 'strcat': f_strcat, 'strncpy': f_strncpy, 'strcasecmp': f_strcasecmp, 'strncasecmp': f_strncasecmp, 'memcmp': f_memcmp, 'strcspn': f_strcspn, 'strtok': f_strtok,
 'basename': f_basename, '__errno_location': f_errno, 'strerror': f_strerror, 'getenv': f_getenv, 'time': f_time, 'clock': f_time, 'gettimeofday': f_gettimeofday,
 'qsort': f_qsort, 'qsort_r': f_qsort, 'bsearch': f_bsearch,
 'fopen': f_fopen, 'fopen64': f_fopen, 'fclose': f_fclose, 'fputs': f_fputs, 'fputc': f_fputc, 'putc': f_fputc, 'fwrite': f_fwrite, 'fread': f_fread, 'fgetc': f_fgetc, 'getc': f_fgetc, 'fgets': f_fgets,
 'getline': f_getline, 'fseek': f_fseek, 'fseeko': f_fseek, 'ftell': f_ftell, 'rewind': f_rewind, 'ferror': f_ferror, 'feof': f_feof, 'fflush': z(0), 'access': f_access, 'mkdir': f_mkdir,
 'opendir': f_opendir, 'readdir': f_readdir, 'closedir': f_closedir, 'stat': f_stat, 'lstat': f_stat, 'remove': f_remove, 'unlink': f_remove, 'rmdir': f_remove, 'realpath': f_realpath,
 'cv_fs': c_fs, 'cv_stdout': c_stdout, 'cv_getopt_reset': c_getopt_reset, 'getopt': f_getopt, 'isatty': z(0), 'fileno': z(1),
 'nc_create': nc_create, 'nc_open': nc_open, 'nc_close': nc_close, 'nc_def_dim': ncdef(_def_dim), 'nc_def_var': ncdef(_def_var), 'nc_redef': ncdef(_redef), 'nc_enddef': ncdef(_enddef),
 'nc_inq_dimid': ncget(_inq_dimid), 'nc_inq_dimlen': ncget(_inq_dimlen), 'nc_inq_varid': ncget(_inq_varid), 'nc_inq_attlen': ncget(_inq_attlen), 'nc_inq_varndims': ncget(_inq_varndims), 'nc_inq_vardimid': ncget(_inq_vardimid), 'nc_inq_ndims': ncget(_inq_ndims), 'nc_inq_nvars': ncget(_inq_nvars), 'nc_inq_attid': ncget(_inq_attid), 'nc_strerror': nc_strerror,
 'nc_put_att_text': ncdef(_put_att(None)), 'nc_get_att_text': ncget(_get_att(None)), 'nc_put_att_int': ncdef(_put_att(tint(4))), 'nc_get_att_int': ncget(_get_att(tint(4))),
 'fftw_execute': f_execute, 'fftwf_execute': f_execute, 'fftw_destroy_plan': f_destroy, 'fftwf_destroy_plan': f_destroy, 'fftw_malloc': fft_malloc, 'fftwf_malloc': fft_malloc,
 'fftw_plan_dft_r2c_1d': plan('r2c', 8), 'fftwf_plan_dft_r2c_1d': plan('r2c', 4), 'fftw_plan_dft_c2r_1d': plan('c2r', 8), 'fftwf_plan_dft_c2r_1d': plan('c2r', 4), 'fftw_cleanup': z(None), 'fftwf_cleanup': z(None),
}
for nm_, t_ in (('double', tflt(8)), ('float', tflt(4)), ('int', tint(4))):
    TAB['nc_put_att_' + nm_] = ncdef(_put_att(t_)); TAB['nc_get_att_' + nm_] = ncget(_get_att(t_))
    TAB['nc_put_var_' + nm_] = ncdef(_put_var(t_, False)); TAB['nc_put_vara_' + nm_] = ncdef(_put_var(t_, True))
    TAB['nc_get_var_' + nm_] = ncget(_get_var(t_, False)); TAB['nc_get_vara_' + nm_] = ncget(_get_var(t_, True))
