"""SMT back end (z3): path feasibility and order/integer obligations.
A complex term is a pair of real terms."""
import time
import z3
from fractions import Fraction
from . import expr as E

BEAT = None; ZSEED = 1
STATS = dict(queries=0, time=0.0, unknown=0)
T_QUICK = 250
T_OBL = 4000
MAXNODES = 1500
QN = 350

_ck = {}
_feas = {}

def reset():
    _ck.clear(); _feas.clear(); _sg.clear(); _lin.clear(); _poly.clear(); _akey.clear(); _ainfo.clear()

PREC = 220
def _isqrt_iv(lo, hi):
    from math import isqrt
    k = 1 << PREC
    a = isqrt((lo.numerator*k*k)//lo.denominator); b = isqrt(-((-hi.numerator*k*k)//hi.denominator))+1
    lo2, hi2 = Fraction(a, k), Fraction(b, k)
    if lo == hi:
        p, q = isqrt(lo.numerator), isqrt(lo.denominator)
        if p*p == lo.numerator and q*q == lo.denominator: return Fraction(p, q), Fraction(p, q)
    return lo2, hi2

def _iroot(n, q):
    """floor of the q-th root of a natural number"""
    if n == 0: return 0
    x = 1 << -(-n.bit_length()//q)
    while True:
        y = ((q-1)*x + n//x**(q-1))//q
        if y >= x: return x
        x = y
def _pow_iv(b, e):
    """enclosure of b**e for rational b > 0 and rational e"""
    if b <= 0 or e.denominator > 64 or abs(e.numerator) > 64: return None
    if e < 0: b, e = 1/b, -e
    c = b**e.numerator; q = e.denominator; K = 1 << (PREC*q)
    lo = _iroot((c.numerator*K)//c.denominator, q); k = 1 << PREC
    return Fraction(lo, k), Fraction(lo+2, k)

class Tr:
    """approx: variable-free subterms with radicals become reals confined to a 1e-60 interval (a sound weakening of the constraint)"""
    def __init__(s, approx=False, opaque=False):
        s.approx = approx; s.civ = {}; s.used = False; s.opaque = opaque
        s.memo = {}
        s.side = []
        s.lossy = False
        s.uf = {}
        s.n = 0
        s.vars = {}
        s.pisign = False
        s.intlike = {}
    def fresh(s, p='t'):
        s.n += 1
        return z3.Real('%s!%d' % (p, s.n))
    def q(s, f): return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
    def num(s, n):
        st = [n]
        m = s.memo
        while st:
            x = st[-1]
            if x.id in m: st.pop(); continue
            todo = [a for a in x.args if a.id not in m]
            if todo: st.extend(todo); continue
            st.pop()
            c = s.closed(x) if s.approx else None
            m[x.id] = c if c is not None else s.one(x)
        return m[n.id]
    def closed(s, x):
        if x.op == 'c':
            if x.real: s.civ[x.id] = (Fraction(x.data[0]), Fraction(x.data[0]))
            return None
        if not x.args: return None
        iv = [s.civ.get(a.id) for a in x.args]
        if any(v is None for v in iv): return None
        if x.op in ('lt', 'le', 'eq'):
            (a, b), (c, d) = iv
            if b < c: return z3.BoolVal(x.op != 'eq')
            if d < a: return z3.BoolVal(False)
            return None
        if not x.real: return None
        if x.op == '+': r = (iv[0][0]+iv[1][0], iv[0][1]+iv[1][1])
        elif x.op == '*':
            if x.args[0] is x.args[1]: q = [v*v for v in iv[0]]; r = (0 if iv[0][0] <= 0 <= iv[0][1] else min(q), max(q))
            else: q = [u*v for u in iv[0] for v in iv[1]]; r = (min(q), max(q))
        elif x.op == '/':
            if iv[1][0] <= 0 <= iv[1][1]: return None
            q = [u/v for u in iv[0] for v in iv[1]]; r = (min(q), max(q))
        elif x.op == 'f' and x.data[0] == 'sqrt':
            if iv[0][0] < 0: return None
            r = _isqrt_iv(*iv[0])
        elif x.op == 'f' and x.data[0] == 'pow' and iv[0][0] == iv[0][1] and iv[1][0] == iv[1][1]:
            r = _pow_iv(iv[0][0], iv[1][0])
            if r is None: return None
        elif x.op == 'f' and x.data[0] == 'abs':
            if iv[0][0] < 0 < iv[0][1]: return None
            r = iv[0] if iv[0][0] >= 0 else (-iv[0][1], -iv[0][0])
        else: return None
        if r[0] != r[1]:   # outward rounding keeps the fractions short
            k = 1 << PREC
            r = (Fraction((r[0].numerator*k)//r[0].denominator, k), Fraction(-((-r[1].numerator*k)//r[1].denominator), k))
        s.civ[x.id] = r
        if r[0] == r[1]: return (s.q(r[0]), z3.RealVal(0))
        s.used = True
        v = s.fresh('irr'); k = 1 << 160
        s.side += [v >= s.q(Fraction((r[0].numerator*k)//r[0].denominator, k)), v <= s.q(Fraction(-((-r[1].numerator*k)//r[1].denominator), k))]
        return (v, z3.RealVal(0))
    def rr(s, p): return p[0]
    def one(s, x):
        op = x.op
        Z = z3.RealVal(0)
        if op == 'c':
            a, b = x.data
            return (s.q(a), s.q(b))
        if op == 'v':
            if x.sort == 'I':
                v = z3.Int(x.data); s.vars[x] = v
                return (z3.ToReal(v), Z)
            if x.real:
                v = z3.Real(x.data)
                if x is E.PI and not s.pisign:
                    s.pisign = True
                    s.side.append(v > z3.RealVal('3.14159265358979')); s.side.append(v < z3.RealVal('3.1415926535898'))
                s.vars[x] = v
                return (v, Z)
            a, b = z3.Real(x.data + '.re'), z3.Real(x.data + '.im')
            s.vars[x] = (a, b)
            return (a, b)
        A = [s.memo[a.id] for a in x.args]
        if op == 'cv': return (A[0][0], -A[0][1])
        if op == 're': return (A[0][0], Z)
        def isz(t): return z3.is_rational_value(t) and t.as_fraction() == 0
        if op == '+':
            a, b = A
            return (a[0]+b[0], (b[1] if isz(a[1]) else a[1] if isz(b[1]) else a[1]+b[1]))
        if s.opaque and op in '*/' and x.real and not (z3.is_rational_value(A[1][0]) or op == '*' and z3.is_rational_value(A[0][0])):
            v = s.fresh('op')      # linear stage: products and quotients are unknowns
            if op == '*' and x.args[0] is x.args[1]: s.side.append(v >= 0)
            return (v, Z)
        if op == '*':
            a, b = A
            if isz(a[1]) and isz(b[1]): return (a[0]*b[0], Z)
            if isz(a[1]): return (a[0]*b[0], a[0]*b[1])
            if isz(b[1]): return (a[0]*b[0], a[1]*b[0])
            return (a[0]*b[0]-a[1]*b[1], a[0]*b[1]+a[1]*b[0])
        if op == '/':
            a, b = A
            if isz(b[1]):
                if isz(a[1]): return (a[0]/b[0], Z)
                return (a[0]/b[0], a[1]/b[0])
            d = b[0]*b[0]+b[1]*b[1]
            return ((a[0]*b[0]+a[1]*b[1])/d, (a[1]*b[0]-a[0]*b[1])/d)
        if op == 'ite':
            c, a, b = A
            return (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]))
        if op == 'b': return z3.BoolVal(x.data)
        if op == 'lt': return A[0][0] < A[1][0]
        if op == 'le': return A[0][0] <= A[1][0]
        if op == 'eq':
            r = A[0][0] == A[1][0]
            if isz(A[0][1]) and isz(A[1][1]): return r
            return z3.And(r, A[0][1] == A[1][1])
        if op == 'not': return z3.Not(A[0])
        if op == 'and': return z3.And(A[0], A[1])
        if op == 'f': return s.func(x, A)
        raise NotImplementedError(op)
    def func(s, x, A):
        Z = z3.RealVal(0)
        nm, data = x.data
        if nm == 'abs': return (z3.If(A[0][0] >= 0, A[0][0], -A[0][0]), Z)
        if nm == 'sqrt':
            v = s.fresh('sqrt'); s.side += [v >= 0] if s.opaque else [v >= 0, v*v == A[0][0]]; return (v, Z)
        if nm == 'hypot':
            v = s.fresh('hyp'); s.side += [v >= 0] if s.opaque else [v >= 0, v*v == A[0][0]*A[0][0]+A[1][0]*A[1][0]]; return (v, Z)
        if nm == 'csqrt':
            u, v = s.fresh('csr'), s.fresh('csi')
            if s.opaque: s.side.append(u >= 0); return (u, v)
            s.side += [u >= 0, u*u-v*v == A[0][0], 2*u*v == A[0][1]]; return (u, v)
        if nm in ('trunc', 'floor', 'ceil', 'round'):
            a = A[0][0]; k = z3.Int('int!%d' % (s.n+1)); s.n += 1; kr = z3.ToReal(k)
            if nm == 'floor': s.side += [kr <= a, a < kr+1]
            elif nm == 'ceil': s.side += [kr >= a, a > kr-1]
            elif nm == 'trunc': s.side += [z3.Or(z3.And(a >= 0, kr <= a, a < kr+1), z3.And(a <= 0, kr >= a, a > kr-1))]
            else: s.side += [z3.Or(z3.And(a >= 0, kr <= a+z3.Q(1, 2), a+z3.Q(1, 2) < kr+1), z3.And(a <= 0, kr >= a-z3.Q(1, 2), a-z3.Q(1, 2) > kr-1))]
            return (kr, Z)
        s.lossy = True
        def uf(name, args, n=1):
            f = z3.Function(name, *([z3.RealSort()]*(len(args)+1)))
            return f(*args)
        flat = []
        for a, nd in zip(A, x.args):
            flat.append(a[0])
            if not nd.real: flat.append(a[1])
        tag = '%s_%s_%d' % (nm, data, len(flat))
        if x.real or all(a.real for a in x.args) and nm in ('sin', 'cos', 'exp', 'log', 'jn', 'tan', 'atan'):
            r = uf(tag, flat)
            if nm in ('sin', 'cos') and len(flat) == 1:
                s1, c1 = uf('sin_None_1', flat), uf('cos_None_1', flat)
                if not s.opaque: s.side.append(s1*s1 + c1*c1 == 1)
                s.side += [s1 <= 1, s1 >= -1, c1 <= 1, c1 >= -1]
            if nm in ('exp', 'cosh'): s.side.append(r > 0)
            return (r, Z)
        return (uf(tag + 'r', flat), uf(tag + 'i', flat))

def _size(n, lim):
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if len(seen) > lim: return lim+1
        st.extend(x.args)
    return len(seen)

def _solver(path, timeout, budget=None, approx=True, opaque=False):
    tr = Tr(approx, opaque)
    sv = z3.Solver(); sv.set('timeout', timeout*3//2); sv.set('rlimit', timeout*4000); sv.set('random_seed', ZSEED)
    dropped = False
    budget = MAXNODES if budget is None else min(budget, MAXNODES)
    for f, t in path.facts:
        k = _size(f, budget)
        if k > budget: dropped = True; continue
        budget -= k
        c = tr.num(f)
        sv.add(c if t else z3.Not(c))
    return sv, tr, dropped

def _nonlinear(n):
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if not x.real and x.op not in ('lt', 'le', 'eq', 'not', 'and', 'b'): return False     # complex: one stage only
        if x.op == '*' and x.args[0].op != 'c' and x.args[1].op != 'c' or x.op == '/' and x.args[1].op != 'c' or x.op == 'f' and x.data[0] in ('sqrt', 'sin', 'cos'): return True
        st.extend(x.args)
    return False

def _check(sv):
    STATS['queries'] += 1
    t = time.time()
    if BEAT is not None: BEAT.value = t
    r = sv.check()
    if BEAT is not None: BEAT.value = 0
    STATS['time'] += time.time()-t
    if r == z3.unknown: STATS['unknown'] += 1
    return r

# ---- sign stage: structural sign rules over a linear view in which expanded monomials are the unknowns
_poly = {}
def poly(x):
    """{monomial: rational} of a real term, monomial = sorted tuple of (atom, power); sin^2 = 1-cos^2 and sqrt(t)^2 = t applied. None if too large"""
    st = [x]
    while st:
        y = st[-1]
        if y.id in _poly: st.pop(); continue
        todo = [a for a in y.args if a.id not in _poly] if y.op in '+*/' or y.op == 'f' and len(y.args) == 1 else []
        if todo: st.extend(todo); continue
        st.pop(); _poly[y.id] = _poly1(y)
    return _poly[x.id]
def _pkey(p): return tuple(sorted(((tuple((repr(a), k) for a, k in m)), str(c)) for m, c in p.items()))
_akey = {}
def _atom(kind, p):
    k = (kind, frozenset(p.items()))
    if k not in _akey: _akey[k] = ('%s%d' % (kind, len(_akey)), kind, p)
    return _akey[k][0]
_ainfo = {}
def _pmulp(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for t, k in n: e[t] = e.get(t, 0)+k
            for q, f in _red(e).items():
                r[q] = r.get(q, 0)+f*c*d
                if r[q] == 0: del r[q]
        if len(r) > 120: return None
    return r
def _red(e):
    for t, k in e.items():
        if k >= 2 and t in _ainfo:
            kind, q = _ainfo[t]
            e2 = dict(e); e2[t] -= 2
            if not e2[t]: del e2[t]
            r = _pmulp({tuple(sorted(e2.items())): Fraction(1)}, q)
            return r if r is not None else {tuple(sorted(e.items())): Fraction(1)}
    return {tuple(sorted(e.items())): Fraction(1)}
def _poly1(y):
    if not y.real: return None
    one = {(): Fraction(1)}
    if y.op == 'c': return {(): Fraction(y.data[0])} if y.data[0] else {}
    def leaf(nm): return {((nm, 1),): Fraction(1)}
    if y.op == '+':
        a, b = (_poly[z.id] for z in y.args)
        if a is None or b is None: return None
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0)+c
            if r[m] == 0: del r[m]
        return r if len(r) <= 120 else None
    if y.op == '*':
        a, b = (_poly[z.id] for z in y.args)
        return None if a is None or b is None or len(a)*len(b) > 600 else _pmulp(a, b)
    if y.op == '/':
        a, b = (_poly[z.id] for z in y.args)
        if a is None or b is None or not b: return None
        if len(b) == 1 and () in b: return {m: c/b[()] for m, c in a.items()}
        return _pmulp(a, leaf(_atom('inv', b)))
    if y.op == 'f' and y.data[0] in ('sqrt', 'sin', 'cos') and y.args[0].real:
        p = _poly[y.args[0].id]
        if p is not None:
            k = _atom(y.data[0], p)
            if y.data[0] == 'sqrt': _ainfo[k] = ('sqrt', p)
            if y.data[0] == 'sin': _ainfo[k] = ('sin', {(): Fraction(1), ((_atom('cos', p), 2),): Fraction(-1)})
            return leaf(k)
    return leaf('n%d' % y.id)

class Lin:
    def __init__(s, path):
        s.v = {}; s.sv = z3.SolverFor('QF_LRA'); s.sv.set('timeout', 200)
        for f, t in path.facts:
            c = s.rel(f, t)
            if c is not None: s.sv.add(c)
        s.n = 0
    def mono(s, m):
        if m in s.v: return s.v[m]
        v = s.v[m] = z3.Real('m%d' % len(s.v))
        if all(k % 2 == 0 or t.startswith('sqrt') for t, k in m): s.sv.add(v >= 0)
        if len(m) == 1 and m[0][1] == 1 and m[0][0][:3] in ('sin', 'cos'): s.sv.add(v <= 1, v >= -1)
        if m == (('n%d' % E.PI.id, 1),): s.sv.add(v > z3.RealVal('3.14159'), v < z3.RealVal('3.1416'))
        return v
    def expr(s, x):
        p = poly(x)
        if p is None: return None
        r = z3.RealVal(0)
        for m, c in p.items():
            q = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            r = r + (q*s.mono(m) if m else q)
        return r
    def rel(s, f, t):
        if f.op not in ('lt', 'le', 'eq') or not (f.args[0].real and f.args[1].real): return None
        if f.op == 'eq' and not t or _size(f, QN) > QN: return None
        a = s.expr(E.sub(f.args[0], f.args[1]))
        if a is None: return None
        if f.op == 'eq': return a == 0
        c = a < 0 if f.op == 'lt' else a <= 0
        return c if t else z3.Not(c)
    def unsat(s, c):
        s.sv.push(); s.sv.add(c); r = _check(s.sv) == z3.unsat; s.sv.pop(); return r
_lin = {}; _sg = {}
def sign(path, e, deep=0):
    """bit mask of the possible signs of a real term: 1 negative, 2 zero, 4 positive"""
    if e.op == 'c': return 4 if e.data[0] > 0 else 1 if e.data[0] < 0 else 2
    if e.op == 'f' and e.data[0] in ('exp', 'cosh'): return 4
    key = (path.key, e.id)
    if key in _sg: return _sg[key]
    _sg[key] = 7
    m = 7
    if e.op == '+':
        st = [e]; ts = []
        while st:
            x = st.pop()
            if x.op == '+' and len(ts) < 40: st.extend(x.args)
            else: ts.append(x)
        m = None
        for x in sorted(ts, key=lambda x: x.op != 'f'):
            k = sign(path, x, deep+1) if deep < 12 else 7
            if m is None: m = k
            else: m = (5 & (m | k)) | (2 & m & k) | (2 if 5 & (m | k) == 5 else 0)
            if m == 7: break
    elif e.op in '*/':
        if e.op == '*' and e.args[0] is e.args[1]:
            a = sign(path, e.args[0], deep+1); m = (4 if a & 5 else 0) | (a & 2)
        else:
            a, b = sign(path, e.args[0], deep+1), sign(path, e.args[1], deep+1)
            if e.op == '/': b &= 5
            m = (2 if (a | b) & 2 else 0) | (4 if a & b & 5 else 0) | (1 if a & 1 and b & 4 or a & 4 and b & 1 else 0)
    elif e.op == 'f' and e.data[0] in ('sqrt', 'abs'):
        a = sign(path, e.args[0], deep+1); m = (4 if a & (4 if e.data[0] == 'sqrt' else 5) else 0) | (a & 2)
        if not m: m = 6
    if m in (7, 5, 3, 6) and _size(e, 120) <= 120:
        if path.key not in _lin:
            if len(_lin) > 3000: _lin.clear()
            _lin[path.key] = Lin(path)
        L = _lin[path.key]; x = L.expr(e)
        if x is not None:
            if m & 4 and (m & 3 or True) and L.unsat(x > 0): m &= 3
            if m & 1 and L.unsat(x < 0): m &= 6
            if m & 2 and m != 2 and L.unsat(x == 0): m &= 5
        if not m: m = 7
    _sg[key] = m
    return m

def _bysign(path, c):
    if c.op not in ('lt', 'le', 'eq') or not (c.args[0].real and c.args[1].real): return None
    a, b = c.args
    m = sign(path, E.sub(b, a) if c.op != 'eq' or b.op != 'c' or b.data[0] != 0 else a)
    if c.op == 'lt': return True if m == 4 else False if not m & 4 else None
    if c.op == 'le': return True if not m & 1 else False if m == 1 else None
    return True if m == 2 else False if not m & 2 else None

def entailed(path, c, timeout=None):
    if not path.facts and not E.variables(c): pass
    key = (path.key, c.id)
    if key in _ck: return _ck[key]
    r = None
    cap = QN if (c.op != 'eq' or (c.args[0].real and c.args[1].real)) else 40   # complex equalities: only small ones go to z3
    if _size(c, QN) <= min(cap, MAXNODES):
        if _nonlinear(c):
            r = _bysign(path, c)
            if r is not None: _ck[key] = r; return r
            sv, tr, dropped = _solver(path, 100, QN, opaque=True)
            z = tr.num(c)
            for x in tr.side: sv.add(x)
            sv.push(); sv.add(z3.Not(z)); a = _check(sv); sv.pop()
            if a == z3.unsat: r = True
            else:
                sv.push(); sv.add(z); b = _check(sv); sv.pop()
                if b == z3.unsat: r = False
            if r is not None: _ck[key] = r; return r
        sv, tr, dropped = _solver(path, timeout or T_QUICK, QN)
        z = tr.num(c)
        for x in tr.side: sv.add(x)
        sv.push(); sv.add(z3.Not(z)); a = _check(sv); sv.pop()
        if a == z3.unsat: r = True
        else:
            sv.push(); sv.add(z); b = _check(sv); sv.pop()
            if b == z3.unsat: r = False
    _ck[key] = r
    return r

def prove(path, c, timeout=None, approx=True):
    """True if the facts entail c"""
    if _size(c, 4*MAXNODES) > 4*MAXNODES: return None, None
    sv, tr, dropped = _solver(path, timeout or T_OBL, approx=approx)
    z = tr.num(c)
    for x in tr.side: sv.add(x)
    sv.add(z3.Not(z))
    a = _check(sv)
    if a == z3.unsat: return True, None
    if tr.used: return prove(path, c, timeout, False)
    if a == z3.sat:
        m = sv.model()
        vals = {}
        for v, t in tr.vars.items():
            try:
                if isinstance(t, tuple): vals[v.data] = (_f(m.eval(t[0], True)), _f(m.eval(t[1], True)))
                else: vals[v.data] = _f(m.eval(t, True))
            except Exception: pass
        return (False if not (dropped or tr.lossy) else None), vals
    return None, None

def _f(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(30).as_fraction())
    raise ValueError

def feasible(path):
    key = path.key
    if key in _feas: return _feas[key]
    sv, tr, dropped = _solver(path, T_QUICK, QN)
    for x in tr.side: sv.add(x)
    r = _check(sv) != z3.unsat
    _feas[key] = r
    return r

def model(path, timeout=3000):
    sv, tr, dropped = _solver(path, timeout)
    for x in tr.side: sv.add(x)
    if _check(sv) != z3.sat: return None
    m = sv.model(); vals = {}
    for v, t in tr.vars.items():
        try:
            if isinstance(t, tuple): vals[v.data] = (_f(m.eval(t[0], True)), _f(m.eval(t[1], True)))
            else: vals[v.data] = _f(m.eval(t, True))
        except Exception: pass
    return vals

_iv = {}
def intvalue(path, r, timeout=5000):
    """some integer value of r consistent with the facts of the path (deterministic)"""
    key = (path.key, r.id)
    if key in _iv: return _iv[key]
    v = None
    sv, tr, dropped = _solver(path, timeout)
    t = tr.num(r)
    t = t[0] if isinstance(t, tuple) else t
    for x in tr.side: sv.add(x)
    if _check(sv) == z3.sat:
        try:
            f = _f(sv.model().eval(t, True)); v = int(round(f))
        except ValueError: pass
    _iv[key] = v
    return v
