"""Hash-consed expression DAG over the field C (with reals and integers as
flagged subsets).  All code arithmetic is mapped here exactly; no rounding."""
from fractions import Fraction

class Node:
    __slots__ = ('op', 'args', 'data', 'real', 'id', 'sort', '_h')
    def __repr__(self): return show(self)

_tab = {}
_cnt = [0]

def _mk(op, args=(), data=None, real=False, sort='N'):
    key = (op, tuple(a.id for a in args), data, real, sort)
    n = _tab.get(key)
    if n is None:
        n = Node(); n.op = op; n.args = tuple(args); n.data = data; n.real = real
        n.sort = sort
        _cnt[0] += 1; n.id = _cnt[0]
        _tab[key] = n
    return n

def reset():
    pass

def const(re, im=0):
    if not isinstance(re, Fraction): re = Fraction(re)
    if not isinstance(im, Fraction): im = Fraction(im)
    return _mk('c', (), (re, im), im == 0)

ZERO = const(0); ONE = const(1); I = const(0, 1); MONE = const(-1); TWO = const(2); HALF = const(Fraction(1, 2))

def var(name, real=True, sort='N'):
    return _mk('v', (), name, real, sort)

PI = var('pi')
INF = var('inf')

def isc(n): return n.op == 'c'
def is0(n): return n is ZERO
def cval(n): return n.data

def _is_int(n):
    return n.op == 'c' and n.data[1] == 0 and n.data[0].denominator == 1

def add(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    if a.op == 'c' and b.op == 'c':
        return const(a.data[0]+b.data[0], a.data[1]+b.data[1])
    if a.id > b.id: a, b = b, a
    # x + (-1)*x
    if b.op == '*' and b.args[0] is MONE and b.args[1] is a: return ZERO
    if a.op == '*' and a.args[0] is MONE and a.args[1] is b: return ZERO
    return _mk('+', (a, b), None, a.real and b.real)

def neg(a): return mul(MONE, a)
def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))

def mul(a, b):
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if a.op == 'c' and b.op == 'c':
        (p, q), (r, s) = a.data, b.data
        return const(p*r - q*s, p*s + q*r)
    if b.op == 'c': a, b = b, a
    if a.op == 'c' and b.op == '*' and b.args[0].op == 'c':
        return mul(mul(a, b.args[0]), b.args[1])
    if b.op == '*' and b.args[0].op == 'c': return mul(b.args[0], mul(a, b.args[1]))
    if a.op == '*' and a.args[0].op == 'c': return mul(a.args[0], mul(a.args[1], b))
    if a.op != 'c' and a.id > b.id: a, b = b, a
    return _mk('*', (a, b), None, a.real and b.real)

def div(a, b):
    if b.op == 'c' and b is not ZERO:
        r, s = b.data; d = r*r + s*s
        return mul(const(r/d, -s/d), a)
    if a is ZERO and b is not ZERO: return ZERO
    if a is b and b is not ZERO: return ONE
    if b.op == '*' and b.args[0].op == 'c': return mul(div(ONE, b.args[0]), div(a, b.args[1]))
    if b is PI and a.op == '*' and PI in a.args: return a.args[0] if a.args[1] is PI else a.args[1]
    if a.op == '*' and a.args[0].op == 'c':
        return mul(a.args[0], div(a.args[1], b))
    return _mk('/', (a, b), None, a.real and b.real)

def powi(a, n):
    if n == 0: return ONE
    if n == 1: return a
    if n < 0: return div(ONE, powi(a, -n))
    r = powi(a, n // 2); r = mul(r, r)
    if n & 1: r = mul(r, a)
    return r

REALFN = {'sqrt','exp','sin','cos','tan','log','atan','atan2','abs','trunc','floor','ceil','round','asin','acos',
          'sinh','cosh','tanh','hypot'}

def _sqrt_const(f):
    import math
    if f < 0: return None
    n, d = f.numerator, f.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn*rn == n and rd*rd == d: return const(Fraction(rn, rd))
    return None

def fn(name, *args, real=None, data=None):
    if real is None: real = all(a.real for a in args) and name in REALFN
    if name in ('sqrt', 'csqrt') and args[0].op == 'c' and args[0].real:
        f = args[0].data[0]
        s = _sqrt_const(abs(f))
        if s is not None:
            if f >= 0: return s
            if name == 'csqrt': return mul(I, s)
    if name in ('sin','tan','sinh','tanh','atan','asin') and args[0] is ZERO: return ZERO
    if name in ('cos','exp','cosh') and args[0] is ZERO: return ONE
    if name == 'log' and args[0] is ONE: return ZERO
    if name in ('sin', 'cos', 'exp'):
        q = _pi_multiple(args[0], name == 'exp')
        if q is not None:
            q2 = (q * 2)
            if q2.denominator == 1:
                k = int(q2) % 4
                c = [1, 0, -1, 0][k]; s = [0, 1, 0, -1][k]
                if name == 'cos': return const(c)
                if name == 'sin': return const(s)
                return const(c, s)
    if name in ('trunc', 'floor', 'ceil', 'round') and args[0].op == 'c':
        f = args[0].data[0]
        if name == 'trunc': return const(int(f))
        if name == 'floor': return const(f.numerator // f.denominator)
        if name == 'ceil': return const(-((-f.numerator) // f.denominator))
        if name == 'round':
            import math
            return const(math.floor(abs(f) + Fraction(1, 2)) * (1 if f >= 0 else -1))
    if name in ('trunc', 'floor', 'ceil', 'round') and args[0].sort == 'I': return args[0]
    if name in ('trunc', 'floor', 'ceil', 'round'):
        v = constnum(args[0])
        if v is not None and v.imag == 0:
            import mpmath
            x = v.real; near = mpmath.nint(2*x)/2
            if abs(x - near) > mpmath.mpf(10)**-30:        # away from every integer and half-integer
                if name == 'floor': return const(int(mpmath.floor(x)))
                if name == 'ceil': return const(int(mpmath.ceil(x)))
                if name == 'trunc': return const(int(mpmath.floor(x)) if x > 0 else int(mpmath.ceil(x)))
                return const(int(mpmath.floor(abs(x) + 0.5))*(1 if x > 0 else -1))
    if name == 'abs' and args[0].op == 'c': return const(abs(args[0].data[0]))
    return _mk('f', args, (name, data), real)

def _pi_multiple(a, wantimag):
    if a is PI: return Fraction(1) if not wantimag else None
    if a.op == '*' and a.args[0].op == 'c' and a.args[1] is PI:
        r, s = a.args[0].data
        if wantimag: return s if r == 0 else None
        return r if s == 0 else None
    return None

_conj = {}
def conj(n):
    if n.real: return n
    r = _conj.get(n.id)
    if r is not None: return r
    op = n.op
    if op == 'c': r = const(n.data[0], -n.data[1])
    elif op == 'v': r = _mk('cv', (n,), None, False)
    elif op == 'cv': r = n.args[0]
    elif op == '+': r = add(conj(n.args[0]), conj(n.args[1]))
    elif op == '*': r = mul(conj(n.args[0]), conj(n.args[1]))
    elif op == '/': r = div(conj(n.args[0]), conj(n.args[1]))
    elif op == 'ite': r = ite(n.args[0], conj(n.args[1]), conj(n.args[2]))
    elif op == 'f':
        if n.data[0] == 'csqrt' and n.args[0].real:
            r = _mk('cv', (n,), None, False)
        else:
            r = _mk('f', [conj(a) for a in n.args], n.data, n.real)
    else: raise ValueError(op)
    _conj[n.id] = r
    _conj.setdefault(r.id, n)
    return r

def asreal(n):
    """force real flag"""
    if n.real: return n
    if n.op == 'c': return const(n.data[0])
    return _mk('re', (n,), None, True)

def re(n):
    if n.real: return n
    return asreal(mul(HALF, add(n, conj(n))))
def im(n):
    if n.real: return ZERO
    return asreal(mul(const(0, Fraction(-1, 2)), sub(n, conj(n))))

def abs2(n): return mul(n, conj(n)) if not n.real else mul(n, n)

# ---- booleans
TRUE = _mk('b', (), True); FALSE = _mk('b', (), False)
def bconst(v): return TRUE if v else FALSE
def cmp(op, a, b):
    """op in lt le eq"""
    if a.op == 'c' and b.op == 'c':
        if op == 'eq': return bconst(a.data == b.data)
        x, y = a.data[0], b.data[0]
        return bconst(x < y if op == 'lt' else x <= y)
    if a is b: return bconst(op != 'lt')
    if a is INF or b is INF:
        if op == 'eq': return FALSE
        return bconst(b is INF)
    return _mk(op, (a, b), None)
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return _mk('not', (a,))
def band(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    return _mk('and', (a, b))
def bor(a, b): return bnot(band(bnot(a), bnot(b)))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return _mk('ite', (c, a, b), None, a.real and b.real)

def isbool(n): return n.op in ('b', 'lt', 'le', 'eq', 'not', 'and')

# ---- differentiation
def diff(n, v, memo=None):
    if memo is None: memo = {}
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        todo = [a for a in x.args if a.id not in memo and not isbool(a)]
        if todo: st.extend(todo); continue
        st.pop()
        memo[x.id] = _diff1(x, v, memo)
    return memo[n.id]

def _diff1(x, v, m):
    op = x.op
    if op == 'c': return ZERO
    if op == 'v': return ONE if x is v else ZERO
    if op == 'cv': return ZERO
    if op == 're': return m[x.args[0].id]
    A = x.args
    if op == '+': return add(m[A[0].id], m[A[1].id])
    if op == '*': return add(mul(m[A[0].id], A[1]), mul(A[0], m[A[1].id]))
    if op == '/':
        a, b = A; da, db = m[a.id], m[b.id]
        if db is ZERO: return div(da, b)
        return div(sub(da, mul(x, db)), b)
    if op == 'ite': return ite(A[0], m[A[1].id], m[A[2].id])
    if op == 'f':
        nm = x.data[0]; ds = [m[a.id] for a in A]
        if all(d is ZERO for d in ds): return ZERO
        a = A[0]; d = ds[0]
        if nm in ('sqrt', 'csqrt'): return div(d, mul(TWO, x))
        if nm == 'exp': return mul(x, d)
        if nm == 'sin': return mul(fn('cos', a), d)
        if nm == 'cos': return neg(mul(fn('sin', a), d))
        if nm == 'tan': return div(d, powi(fn('cos', a), 2))
        if nm == 'sinh': return mul(fn('cosh', a), d)
        if nm == 'cosh': return mul(fn('sinh', a), d)
        if nm == 'log': return div(d, a)
        if nm == 'atan': return div(d, add(ONE, mul(a, a)))
        if nm == 'atan2':
            y, xx = A; r2 = add(mul(y, y), mul(xx, xx))
            return div(sub(mul(xx, ds[0]), mul(y, ds[1])), r2)
        if nm == 'jn':
            # J_n'(x) = (J_{n-1}-J_{n+1})/2, argument 1; args=(x), data=n
            k = x.data[1]
            lo = neg(fn('jn', a, real=a.real, data=1)) if k == 0 else fn('jn', a, real=a.real, data=k-1)
            if k == 0: return mul(lo, d)
            return mul(d, sub(lo, mul(div(const(k), a), x)))
        raise NotImplementedError('diff of ' + nm)
    raise NotImplementedError('diff ' + op)

def show(n, depth=6):
    op = n.op
    if op == 'c':
        r, s = n.data
        return str(r) if s == 0 else '(%s+%si)' % (r, s)
    if op in 'v': return str(n.data)
    if op == 'b': return str(n.data)
    if depth == 0: return '#%d' % n.id
    a = [show(x, depth-1) for x in n.args]
    if op in '+*/': return '(' + op.join(a) + ')'
    if op == 'f': return '%s%s(%s)' % (n.data[0], '' if n.data[1] is None else n.data[1], ','.join(a))
    return '%s(%s)' % (op, ','.join(a))

def variables(n, acc=None, seen=None):
    if acc is None: acc = set()
    if seen is None: seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'v': acc.add(x)
        st.extend(x.args)
    return acc


# ---- closed constants (rationals, pi, radicals, elementary functions of them): value to 60 digits
_cn = {}
_CNF = {'sqrt', 'csqrt', 'exp', 'sin', 'cos', 'tan', 'log', 'atan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'abs', 'atan2', 'hypot', 'trunc', 'floor', 'ceil', 'round', 'pow'}
def constnum(n):
    """mpmath value of an expression without variables other than pi, else None"""
    if n.id in _cn: return _cn[n.id]
    import mpmath
    mpmath.mp.dps = 60
    st = [n]
    while st:
        x = st[-1]
        if x.id in _cn: st.pop(); continue
        if x.op == 'c':
            _cn[x.id] = mpmath.mpc(mpmath.mpf(x.data[0].numerator)/x.data[0].denominator, mpmath.mpf(x.data[1].numerator)/x.data[1].denominator); st.pop(); continue
        if x.op == 'v': _cn[x.id] = mpmath.mpc(mpmath.pi) if x is PI else None; st.pop(); continue
        if x.op not in ('+', '*', '/', 're', 'cv', 'f') or (x.op == 'f' and x.data[0] not in _CNF): _cn[x.id] = None; st.pop(); continue
        bad = False; todo = []
        for a in x.args:
            if a.id not in _cn: todo.append(a)
            elif _cn[a.id] is None: bad = True; break
        if bad: _cn[x.id] = None; st.pop(); continue
        if todo: st.append(todo[0]); continue
        A = [_cn[a.id] for a in x.args]; st.pop()
        try:
            if x.op == '+': v = A[0] + A[1]
            elif x.op == '*': v = A[0]*A[1]
            elif x.op == '/': v = A[0]/A[1]
            elif x.op == 're': v = mpmath.mpc(A[0].real)
            elif x.op == 'cv': v = mpmath.conj(A[0])
            else:
                nm = x.data[0]
                if nm in ('sqrt', 'csqrt'): v = mpmath.sqrt(A[0])
                elif nm == 'abs': v = abs(A[0])
                elif nm == 'atan2': v = mpmath.atan2(A[0].real, A[1].real)
                elif nm == 'hypot': v = mpmath.hypot(A[0].real, A[1].real)
                elif nm == 'pow': v = A[0]**A[1]
                elif nm in ('trunc', 'floor', 'ceil', 'round'): v = None
                else: v = getattr(mpmath, nm)(A[0])
            if v is not None:
                v = mpmath.mpc(v)
                if not (mpmath.isfinite(v)): v = None
        except (ValueError, ZeroDivisionError, ArithmeticError): v = None
        _cn[x.id] = v
    return _cn[n.id]
