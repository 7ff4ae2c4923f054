"""Library functions the verified code calls, with their mathematical contracts
(trusted), and the cv_* intrinsics of the contract language."""
from fractions import Fraction
from . import expr as E
from . import pit, smt

def _I():
    from . import interp
    return interp

def argt(s, n, i):
    return s.tu.ty(n['inner'][1+i]['type'])

def iscx(s, n, i=0):
    return argt(s, n, i).k == 'cpx'

def num(s, v): return s.tonum(v)

def _int(v):
    if isinstance(v, E.Node) and v.op == 'c': return int(v.data[0])
    return v

def lin(x, limit=400):
    """x rebuilt as a sum of distinct terms with collected rational coefficients (linear in its atoms); x itself if too large"""
    if not x.real or x.op in ('c', 'v'): return x
    acc = {}; n = [0]
    def go(y, k):
        n[0] += 1
        if n[0] > limit: raise OverflowError
        if y.op == '+':
            for z in y.args: go(z, k)
        elif y.op == 'c': acc[None] = acc.get(None, 0)+k*y.data[0]
        elif y.op == '*' and any(z.op == 'c' for z in y.args):
            c = k; rest = E.ONE
            for z in y.args:
                if z.op == 'c': c = c*z.data[0]
                else: rest = E.mul(rest, z)
            if rest.op == '+': go(rest, c)
            else: acc[rest] = acc.get(rest, 0)+c
        else: acc[y] = acc.get(y, 0)+k
    try: go(x, 1)
    except (OverflowError, AttributeError): return x
    r = E.const(acc.pop(None, 0))
    for t, c in acc.items():
        if c != 0: r = E.add(r, E.mul(E.const(c), t))
    return r

def f_fabs(s, a, n):
    x = num(s, a[0])
    if not iscx(s, n) and x.op == '+': x = lin(x)
    if iscx(s, n) and not x.real:
        return E.fn('sqrt', E.asreal(E.abs2(x)), real=True)
    if x.op == 'c': return E.fn('abs', x)
    if s.opts.get('split_abs', True):
        k = s.path.known(E.cmp('le', E.ZERO, x))
        if k is True: return x
        if k is False: return E.neg(x)
    return E.fn('abs', x, real=True)

def f_sqrt(s, a, n):
    x = num(s, a[0])
    if iscx(s, n):
        return E.fn('csqrt', x, real=False)
    sq = _perfect(s, x)
    if sq is not None: return sq
    return E.fn('sqrt', x, real=True)

def _perfect(s, x):
    """sqrt(y*y) = |y| for real y"""
    if x.op == '*' and x.args[0] is x.args[1]:
        y = x.args[0]
        k = s.path.known(E.cmp('le', E.ZERO, y))
        if k is True: return y
        if k is False: return E.neg(y)
        return E.fn('abs', y, real=True)
    return None

def mathfn(name):
    def f(s, a, n):
        x = num(s, a[0])
        return E.fn(name, x, real=x.real)
    return f

def f_exp(s, a, n):
    x = num(s, a[0])
    return E.fn('exp', x, real=x.real)

def f_creal(s, a, n): return E.re(num(s, a[0]))
def f_cimag(s, a, n): return E.im(num(s, a[0]))
def f_conj(s, a, n): return E.conj(num(s, a[0]))
def f_hypot(s, a, n):
    x, y = lin(num(s, a[0])), lin(num(s, a[1]))
    if x is E.ZERO: return f_abs_node(s, y)
    if y is E.ZERO: return f_abs_node(s, x)
    return E.fn('sqrt', E.add(E.mul(x, x), E.mul(y, y)), real=True)
def f_abs_node(s, x):
    k = s.path.known(E.cmp('le', E.ZERO, x))
    if k is True: return x
    if k is False: return E.neg(x)
    return E.fn('abs', x, real=True)
def f_pow(s, a, n):
    x, y = num(s, a[0]), num(s, a[1])
    if y.op == 'c' and y.real:
        q = y.data[0]
        if q.denominator == 1 and abs(q) < 64: return E.powi(x, int(q))
        if q.denominator == 2 and abs(q) < 32:
            r = E.fn('sqrt' if x.real and not iscx(s, n) else 'csqrt', x)
            return E.powi(r, int(q*2))
    return E.fn('pow', x, y, real=x.real and y.real)
def f_atan2(s, a, n):
    y, x = num(s, a[0]), num(s, a[1])
    if x is E.ZERO or y is E.ZERO:       # on an axis: the exact multiple of pi/2
        z = y if x is E.ZERO else x
        if z.op == 'c' and z.data[0] == 0: return E.ZERO
        if z.op == 'c': k = z.data[0] > 0
        else: k = s.path.known(E.cmp('lt', E.ZERO, z))
        if k is not True and z.op != 'c' and s.path.known(E.cmp('lt', z, E.ZERO)) is not True: k = None
        if k is not None: return E.mul(E.const(Fraction(1 if k else -1, 2)), E.PI) if x is E.ZERO else (E.ZERO if k else E.PI)
    return E.fn('atan2', y, x, real=True)
def f_fmax(s, a, n):
    x, y = num(s, a[0]), num(s, a[1])
    return y if s.path.decide(E.cmp('lt', x, y)) else x
def f_fmin(s, a, n):
    x, y = num(s, a[0]), num(s, a[1])
    return x if s.path.decide(E.cmp('lt', x, y)) else y
def rnd(name):
    def f(s, a, n):
        r = E.fn(name, num(s, a[0]), real=True)
        if s.path.ctx.subst: r = pit.substitute_map(r, s.path.ctx.subst)
        return r
    return f
def rndi(name):
    g = rnd(name)
    def f(s, a, n): return _int(g(s, a, n))
    return f
def f_isfinite(s, a, n): return 0 if _notnum(a[0]) else 1
def _notnum(x): return isinstance(x, E.Node) and (x is E.INF or x is E.neg(E.INF) or x.op == 'v' and x.data == 'nan')
def f_isnan(s, a, n):
    return int(isinstance(a[0], E.Node) and a[0].op == 'v' and a[0].data == 'nan')
def f_isinf(s, a, n): return int(a[0] is E.INF or a[0] is E.neg(E.INF))
def f_jn(k):
    def f(s, a, n):
        if k is None:
            m = a[0]; x = num(s, a[1])
            if not isinstance(m, int): raise _I().Unsupported('symbolic bessel order')
        else: m, x = k, num(s, a[0])
        return bessel(m, x)
    return f
def bessel(m, x):
    if m < 0:
        r = bessel(-m, x); return r if m % 2 == 0 else E.neg(r)
    if x is E.ZERO: return E.ONE if m == 0 else E.ZERO
    if m <= 1: return E.fn('jn', x, real=x.real, data=m)
    return E.sub(E.mul(E.div(E.const(2*(m-1)), x), bessel(m-1, x)), bessel(m-2, x))
def f_abs(s, a, n):
    v = a[0]
    if isinstance(v, int): return abs(v)
    return f_abs_node(s, v)
def f_fmod(s, a, n):
    x, y = num(s, a[0]), num(s, a[1])
    return E.sub(x, E.mul(y, E.fn('trunc', E.div(x, y), real=True)))

# ---------------------------------------------------------------- memory
def f_malloc(s, a, n):
    I = _I()
    if not isinstance(a[0], int): return s.symalloc(a[0], False)
    o = s.new(a[0], 'malloc'); o.heap = True; return I.Ptr(o, 0)
def f_calloc(s, a, n):
    I = _I()
    if not (isinstance(a[0], int) and isinstance(a[1], int)):
        return s.symalloc(s.offmul(a[0] if not isinstance(a[0], int) else E.const(a[0]), a[1]), True)
    o = s.new(a[0]*a[1], 'calloc', True); o.heap = True; return I.Ptr(o, 0)
def f_realloc(s, a, n):
    I = _I()
    if not isinstance(a[1], int): return s.symalloc(a[1], False)
    o = s.new(a[1], 'realloc'); o.heap = True
    p = a[0]
    if isinstance(p, I.Ptr) and p.o is not None:
        if p.o.dead: raise I.UB('realloc of freed memory')
        k = min(a[1], p.o.size) if p.o.size is not None else a[1]
        s.rawcopy(o, 0, p.o, 0, k)
        p.o.dead = True
    return I.Ptr(o, 0)
def f_free(s, a, n):
    p = a[0]
    I = _I()
    if isinstance(p, int) or p.o is None: return None
    if p.o.dead: raise I.UB('double free of ' + p.o.name)
    if not p.o.heap or p.off != 0: raise I.UB('free of non-heap pointer ' + p.o.name)
    p.o.dead = True
def f_memcpy(s, a, n):
    d, sr, k = a
    if k == 0: return d
    s.chk(d.o, d.off, k); s.chk(sr.o, sr.off, k)
    s.rawcopy(d.o, d.off, sr.o, sr.off, k)
    return d
def f_memmove(s, a, n):
    I = _I()
    d, sr, k = a
    if k == 0: return d
    s.chk(d.o, d.off, k); s.chk(sr.o, sr.off, k)
    t = s.new(k, 'mm'); s.rawcopy(t, 0, sr.o, sr.off, k); s.rawcopy(d.o, d.off, t, 0, k)
    return d
def f_memset(s, a, n):
    d, c, k = a
    if k == 0: return d
    s.chk(d.o, d.off, k)
    s.clear(d.o, d.off, k)
    if c == 0: d.o.zr.append((d.off, d.off+k))
    else:
        if k > 65536: raise _I().Unsupported('big memset')
        for i in range(k): d.o.cells[d.off+i] = c if c < 128 else c-256
    return d
# ---------------------------------------------------------------- strings (concrete)
def cstr(s, p, lim=100000):
    b = bytearray(); i = p.off
    from .cfront import tint
    t = tint(1)
    while True:
        c = s.load(p.o, i, t)
        if not isinstance(c, int): raise _I().Unsupported('symbolic char')
        if c == 0: return bytes(b)
        b.append(c & 255); i += 1
def putstr(s, p, b):
    from .cfront import tint
    t = tint(1)
    for i, c in enumerate(b): s.store(p.o, p.off+i, t, c if c < 128 else c-256)
    s.store(p.o, p.off+len(b), t, 0)
def f_strlen(s, a, n): return len(cstr(s, a[0]))
def f_strcmp(s, a, n):
    x, y = cstr(s, a[0]), cstr(s, a[1]); return (x > y) - (x < y)
def f_strncmp(s, a, n):
    x, y = cstr(s, a[0])[:a[2]], cstr(s, a[1])[:a[2]]; return (x > y) - (x < y)
def f_strcpy(s, a, n): putstr(s, a[0], cstr(s, a[1])); return a[0]
def f_strdup(s, a, n):
    b = cstr(s, a[0]); o = s.new(len(b)+1, 'strdup'); o.heap = True
    p = _I().Ptr(o, 0); putstr(s, p, b); return p
def f_strchr(s, a, n):
    b = cstr(s, a[0]) + b'\0'; i = b.find(bytes([a[1] & 255]))
    return _I().NULL if i < 0 else _I().Ptr(a[0].o, a[0].off+i)
def f_strstr(s, a, n):
    i = cstr(s, a[0]).find(cstr(s, a[1]))
    return _I().NULL if i < 0 else _I().Ptr(a[0].o, a[0].off+i)
def f_strspn(s, a, n):
    b, c = cstr(s, a[0]), cstr(s, a[1]); i = 0
    while i < len(b) and b[i] in c: i += 1
    return i
def f_isspace(s, a, n): return int(a[0] in (32, 9, 10, 11, 12, 13))
def f_isdigit(s, a, n): return int(48 <= a[0] <= 57)
def f_exit(s, a, n): raise _I().ExitCalled(a[0])
def f_zero(s, a, n): return 0
def f_one(s, a, n): return 1
def f_expect(s, a, n): return a[0]
def f_unreach(s, a, n): raise _I().UB('__builtin_unreachable')
def f_assert_fail(s, a, n): raise _I().ExitCalled(134)
def f_inf(s, a, n): return E.INF
def f_nan(s, a, n): return E.var('nan')
def f_strtok_r(s, a, n):
    I = _I(); P = I.Ptr
    from .cfront import tint, tptr, VOID
    delim = cstr(s, a[1]); t1 = tint(1); tp = tptr(VOID)
    p = a[0]
    if (isinstance(p, int) or p.o is None): p = s.load(a[2].o, a[2].off, tp)
    if p.o is None: return I.NULL
    off = p.off
    while s.load(p.o, off, t1) != 0 and (s.load(p.o, off, t1) & 255) in delim: off += 1
    if s.load(p.o, off, t1) == 0: s.store(a[2].o, a[2].off, tp, I.NULL); return I.NULL
    st = off
    while s.load(p.o, off, t1) != 0 and (s.load(p.o, off, t1) & 255) not in delim: off += 1
    if s.load(p.o, off, t1) != 0:
        s.store(p.o, off, t1, 0); s.store(a[2].o, a[2].off, tp, P(p.o, off+1))
    else: s.store(a[2].o, a[2].off, tp, I.NULL)
    return P(p.o, st)

# ---------------------------------------------------------------- intrinsics
def nm(s, p): return cstr(s, p).decode()
def uniq(s, base):
    k = s.nfresh.get(base, 0); s.nfresh[base] = k+1
    return base if k == 0 else '%s@%d' % (base, k)
def hint(a):
    try: return (float(a[1].data[0]), float(a[2].data[0]))
    except Exception: return (-2.0, 2.0)
def c_real(s, a, n):
    name = uniq(s, nm(s, a[0]))
    v = E.var(name); s.inputs.append((name, 'r', v) + hint(a)); return v
def c_pos(s, a, n):
    v = c_real(s, a, n); s.path.assume(E.cmp('lt', E.ZERO, v)); return v
def c_cplx(s, a, n):
    name = uniq(s, nm(s, a[0]))
    v = E.var(name, False); s.inputs.append((name, 'c', v) + hint(a)); return v
def c_choose(s, a, n):
    name = uniq(s, nm(s, a[0])); k = s.path.nway(a[1], name)
    s.inputs.append((name, 'i', k)); s.tags.append('%s=%d' % (name, k)); return k
def c_size(s, a, n):
    name = uniq(s, nm(s, a[0])); lo, hi = a[1], a[2]
    if s.opts.get('tier') == 'thorough' and len(a) > 3: hi = max(hi, a[3])
    k = lo + s.path.nway(hi-lo+1, name)
    s.bounded[name] = (lo, hi)
    s.inputs.append((name, 'i', k)); s.tags.append('%s=%d' % (name, k)); return k
def c_nat(s, a, n):
    """symbolic integer in [lo,hi] (as mathematical integer)"""
    name = uniq(s, nm(s, a[0]))
    v = E.var(name, True, 'I'); s.inputs.append((name, 'n', v, a[1], a[2]))
    s.path.assume(E.cmp('le', E.const(a[1]), v)); s.path.assume(E.cmp('le', v, E.const(a[2])))
    return v
def cond_of(s, v):
    if isinstance(v, int): return v != 0
    return s.truth(v)
def c_assume(s, a, n):
    if not cond_of(s, a[0]): raise _I().PathEnd()
    s.path.assumed = True
def c_assume_lt(s, a, n): _assume(s, E.cmp('lt', num(s, a[0]), num(s, a[1])))
def c_assume_le(s, a, n): _assume(s, E.cmp('le', num(s, a[0]), num(s, a[1])))
def c_assume_eq(s, a, n): _assume(s, E.cmp('eq', num(s, a[0]), num(s, a[1])))
def c_assume_ne(s, a, n): _assume(s, E.bnot(E.cmp('eq', num(s, a[0]), num(s, a[1]))))
def _assume(s, c):
    k = s.path.known(c)
    if k is False: raise _I().PathEnd()
    if k is None: s.path.assume(c)
def c_eq(s, a, n): s.oblige_eq(nm(s, a[0]), num(s, a[1]), num(s, a[2]))
def c_lt(s, a, n): s.oblige(nm(s, a[0]), E.cmp('lt', num(s, a[1]), num(s, a[2])))
def c_le(s, a, n): s.oblige(nm(s, a[0]), E.cmp('le', num(s, a[1]), num(s, a[2])))
def c_ne(s, a, n):
    s.oblige(nm(s, a[0]), E.bnot(E.cmp('eq', num(s, a[1]), num(s, a[2]))))
def c_true(s, a, n): s.oblige_bool(nm(s, a[0]), cond_of(s, a[1]))
def c_diff(s, a, n):
    f = num(s, a[0]); v = [x for x in s.inputs if x[0] == nm(s, a[1])]
    if not v: raise _I().Unsupported('cv_diff: no input ' + nm(s, a[1]))
    if s.path.ctx.subst: f = pit.substitute_map(f, s.path.ctx.subst)
    return E.diff(f, v[0][2])
def c_diff2(s, a, n):
    f = num(s, a[0])
    if s.path.ctx.subst: f = pit.substitute_map(f, s.path.ctx.subst)
    for i in (1, 2):
        v = [x for x in s.inputs if x[0] == nm(s, a[i])]
        if not v: raise _I().Unsupported('cv_diff2: no input ' + nm(s, a[i]))
        f = E.diff(f, v[0][2])
    return f
def c_uf(s, a, n): return E.fn('uf_' + nm(s, a[0]), num(s, a[1]), real=False)
def c_ufr(s, a, n): return E.fn('uf_' + nm(s, a[0]), num(s, a[1]), real=True)
def c_exit_ok(s, a, n): s.exit_ok = True
def c_must_exit(s, a, n): s.must_exit = nm(s, a[0])
def c_symbolic(s, a, n): return 1
def c_cover(s, a, n): s.covers.add(nm(s, a[0]))
def c_tol(s, a, n): return None
def c_havoc(s, a, n):
    """fill a fresh array of count doubles/complex with inputs"""
    raise _I().Unsupported('havoc')
def c_bes(s, a, n):
    return bessel(a[0], num(s, a[1]))
def c_sqrt_choice(s, a, n):
    """complex square root with the branch Re>=0 (same primitive as csqrt)"""
    return E.fn('csqrt', num(s, a[0]), real=False)
def c_isfinite(s, a, n): return 1

TAB = {
 'fabs': f_fabs, 'cabs': f_fabs, 'sqrt': f_sqrt, 'csqrt': f_sqrt, 'exp': f_exp, 'cexp': f_exp, 'creal': f_creal, 'cimag': f_cimag,
 'conj': f_conj, 'hypot': f_hypot, 'pow': f_pow, 'cpow': f_pow, 'atan2': f_atan2, 'fmax': f_fmax, 'fmin': f_fmin,
 'sin': mathfn('sin'), 'cos': mathfn('cos'), 'tan': mathfn('tan'), 'log': mathfn('log'), 'clog': mathfn('log'), 'atan': mathfn('atan'),
 'asin': mathfn('asin'), 'acos': mathfn('acos'), 'sinh': mathfn('sinh'), 'cosh': mathfn('cosh'), 'tanh': mathfn('tanh'),
 'csin': mathfn('sin'), 'ccos': mathfn('cos'), 'ctan': mathfn('tan'), 'log10': mathfn('log10'), 'log2': mathfn('log2'), 'cbrt': mathfn('cbrt'),
 'floor': rnd('floor'), 'ceil': rnd('ceil'), 'round': rnd('round'), 'trunc': rnd('trunc'), 'lround': rndi('round'), 'llround': rndi('round'),
 'isfinite': f_isfinite, '__builtin_isfinite': f_isfinite, '__builtin_isnan': f_isnan, '__builtin_isinf_sign': f_isinf, '__builtin_isinf': f_isinf, 'isnan': f_isnan, 'isinf': f_isinf,
 'j0': f_jn(0), 'j1': f_jn(1), 'jn': f_jn(None), 'abs': f_abs, 'labs': f_abs, 'llabs': f_abs, 'fmod': f_fmod,
 'malloc': f_malloc, 'calloc': f_calloc, 'realloc': f_realloc, 'free': f_free, 'memcpy': f_memcpy, 'memmove': f_memmove, 'memset': f_memset,
 '__builtin_memcpy': f_memcpy, '__builtin_memset': f_memset,
 'strlen': f_strlen, 'strcmp': f_strcmp, 'strncmp': f_strncmp, 'strcpy': f_strcpy, 'strdup': f_strdup, 'strchr': f_strchr, 'strstr': f_strstr,
 'strspn': f_strspn, 'isspace': f_isspace, 'isdigit': f_isdigit, 'strtok_r': f_strtok_r, '__strdup': f_strdup,
 'exit': f_exit, 'abort': f_assert_fail, '__assert_fail': f_assert_fail, 'omp_set_num_threads': f_zero, 'omp_get_thread_num': f_zero, 'omp_get_max_threads': f_one, 'omp_get_num_threads': f_one, 'omp_in_parallel': f_zero, 'omp_get_num_procs': f_one, 'omp_get_level': f_zero,
 '__builtin_expect': f_expect, '__builtin_unreachable': f_unreach,
 '__builtin_inff': f_inf, '__builtin_inf': f_inf, '__builtin_huge_val': f_inf, '__builtin_nanf': f_nan, '__builtin_nan': f_nan, '__builtin_huge_valf': f_inf,
 'cv_real': c_real, 'cv_pos': c_pos, 'cv_cplx': c_cplx, 'cv_choose': c_choose, 'cv_size': c_size, 'cv_nat': c_nat, 'cv_assume': c_assume,
 'cv_assume_lt': c_assume_lt, 'cv_assume_le': c_assume_le, 'cv_assume_eq': c_assume_eq, 'cv_assume_ne': c_assume_ne,
 'cv_eq_': c_eq, 'cv_lt': c_lt, 'cv_le': c_le, 'cv_ne_': c_ne, 'cv_true': c_true, 'cv_diff_': c_diff, 'cv_diff2_': c_diff2,
 'cv_uf': c_uf, 'cv_ufr': c_ufr, 'cv_exit_ok': c_exit_ok, 'cv_must_exit': c_must_exit, 'cv_symbolic': c_symbolic, 'cv_cover': c_cover, 'cv_tol': c_tol, 'cv_bessel': c_bes,
 'cv_isfinite': c_isfinite,
}

from . import libc as _libc
for _k, _v in _libc.TAB.items(): TAB.setdefault(_k, _v)
TAB['fftw_free'] = TAB['fftwf_free'] = f_free; TAB['catan'] = mathfn('atan')

def lookup(name):
    f = TAB.get(name)
    if f is not None: return f
    if name.startswith('__tg_'): return TAB.get(name[5:])
    if name.startswith('__builtin_') and name[10:] in TAB: return TAB[name[10:]]
    if name.endswith('f') or name.endswith('l'):
        b = name[:-1]
        if b in ('sqrt', 'fabs', 'sin', 'cos', 'exp', 'floor', 'pow', 'ceil', 'round', 'creal', 'cimag', 'cabs', 'cexp', 'csqrt', 'hypot', 'atan2', 'conj', 'fmax', 'fmin', 'log'): return TAB[b]
    return None
