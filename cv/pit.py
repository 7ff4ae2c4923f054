"""Polynomial identity decision over GF(p) (Schwartz-Zippel), p a 2^160 prime
= 1 mod 720, so that i and exp(i pi n/360) exist.  An expression DAG is mapped to GF(p) by a
random ring homomorphism; sqrt -> a square root in GF(p) (resampling until every
radicand is a residue), exp -> a random character of the additive group spanned
by the expanded exponent monomials (so exp(a+b)=exp(a)exp(b), sin^2+cos^2=1,
addition theorems are respected), conj(z) -> independent indeterminate,
anything else uninterpreted with congruence.  A non-zero rational expression of
degree d evaluates to zero with probability <= d/p < 2^-100."""
import hashlib, math, random, functools
from fractions import Fraction
from . import expr as E

def _isprime(n):
    for q in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n % q == 0: return n == q
    d, s = n-1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53):
        x = pow(a, d, n)
        if x in (1, n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True

# p = 1 mod 720 with 2-adic valuation 4: the 720-th roots of unity represent exp(i pi q), q a multiple of 1/360;
# p = 1 mod every prime below 100, so that all these primes have square roots
_SP = [q for q in range(7, 100) if all(q % d for d in range(2, q))]
_M = 720
for _q in _SP: _M *= _q
_K = (1 << 160)//_M | 1
while not _isprime(_K*_M + 1): _K += 2
P = _K*_M + 1
def _root(n):
    g = 2
    while True:
        z = pow(g, (P-1)//n, P)
        if all(pow(z, n//q, P) != 1 for q in (2, 3, 5)): return z
        g += 1
UNIT = _root(720)
IM = pow(UNIT, 180, P)
assert IM*IM % P == P-1 and (P-1) % 32 == 16
_T = (P-1)//16
def _ru(k): return (pow(UNIT, k % 720, P) + pow(UNIT, -k % 720, P)) % P     # 2 cos(pi k/360)
_CSQ = {2: _ru(90), 3: _ru(60), 5: (1 + 2*_ru(144)) % P}
assert all(v*v % P == k for k, v in _CSQ.items())

assert (P-1) % 32 == 16
def _rat(v):
    """rational with numerator and denominator below 2^36 that has field value v, or None"""
    B = 1 << 36; r0, r1, t0, t1 = P, v, 0, 1
    while r1 >= B: q = r0//r1; r0, r1 = r1, r0-q*r1; t0, t1 = t1, t0-q*t1
    if t1 == 0 or abs(t1) >= B: return None
    return Fraction(r1, t1)
class NonResidue(Exception): pass
class ZeroDiv(Exception): pass
class Undecidable(Exception): pass

def fsqrt(a):
    if a == 0: return 0
    q = _rat(a)
    if q is not None and q > 0: return csqrt_const(q)
    return _fsqrt(a)
def _fsqrt(a):
    if a == 0: return 0
    if pow(a, (P-1)//2, P) != 1: raise NonResidue()
    # Tonelli-Shanks, 2-adic valuation 4; UNIT^45 generates the 16th roots of unity
    r = pow(a, (_T+1)//2, P); e = pow(a, _T, P)
    c = _C16; m = 4
    while e != 1:
        i = 0; x = e
        while x != 1: x = x*x % P; i += 1
        b = pow(c, 1 << (m-i-1), P)
        r = r*b % P; c = b*b % P; e = e*c % P; m = i
    assert r*r % P == a
    return min(r, P-r)
_C16 = pow(UNIT, 45, P)
def csqrt_const(f):
    r = _csqrt_const(f)
    if r is None: raise Undecidable('root of a constant that has none in the field')    # the same in every sample
    return r
@functools.lru_cache(100000)
def _csqrt_const(f):
    """square root of a non-negative rational, sign coherent with the chosen roots of unity"""
    n = f.numerator*f.denominator; r = inv(f.denominator)
    for q in (2, 3, 5, *_SP):
        while n % (q*q) == 0: n //= q*q; r = r*q % P
        if n % q == 0:
            n //= q
            if q not in _CSQ: _CSQ[q] = _fsqrt(q)
            r = r*_CSQ[q] % P
    if n == 1: return r
    w = math.isqrt(n)
    if w*w == n: return r*w % P
    try: return r*_fsqrt(n % P) % P
    except NonResidue: pass
    return None

def inv(a): return pow(a, -1, P)

LEXP = 720*2**10*3**3*5**6*7*11*13

class Sample:
    def __init__(self, seed, subst):
        self.seed = seed
        self.subst = subst
        self.memo = {}
        self.over = {}
        self.nfun = 0
        self.angles = {}        # value of an inverse trigonometric atom -> (sign, kind, arguments)
    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=24).digest()
        return int.from_bytes(d, 'big') % P
    def ev(self, n):
        memo = self.memo
        r = memo.get(n.id)
        if r is not None: return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in memo: st.pop(); continue
            op = x.op
            if op == 'v':
                if x in self.over: memo[x.id] = self.over[x]; st.pop(); continue
                s = self.subst.get(x)
                if s is not None:
                    if s.id in memo: memo[x.id] = memo[s.id]; st.pop()
                    else: st.append(s)
                    continue
                memo[x.id] = self.h('v', x.data) if x is not E.PI else self.h('pi') >> 1; st.pop(); continue
            if op == 'c':
                a, b = x.data
                v = a.numerator % P
                if a.denominator != 1: v = v * inv(a.denominator) % P
                if b:
                    w = b.numerator % P
                    if b.denominator != 1: w = w * inv(b.denominator) % P
                    v = (v + IM*w) % P
                memo[x.id] = v; st.pop(); continue
            if op == 'cv':
                y = x.args[0]
                if y.op == 'v':
                    s = self.subst.get(y)
                    if s is not None:
                        c = E.conj(s)
                        if c.id in memo: memo[x.id] = memo[c.id]; st.pop()
                        else: st.append(c)
                        continue
                    memo[x.id] = self.h('cv', y.data); st.pop(); continue
                if y.id not in memo: st.append(y); continue
                s = memo[y.id]
                memo[x.id] = s if self.h('sg', s) & 1 else P - s
                st.pop(); continue
            todo = [a for a in x.args if a.id not in memo]
            if op == 'ite':
                raise Undecidable('ite in term')
            if todo: st.extend(todo); continue
            st.pop()
            A = [memo[a.id] for a in x.args]
            if op == '+': v = (A[0]+A[1]) % P
            elif op == '*': v = A[0]*A[1] % P
            elif op == '/':
                if A[1] == 0: raise ZeroDiv(x.args[1])
                v = A[0]*inv(A[1]) % P
            elif op == 're': v = A[0]
            elif op == 'f': v = self.func(x, A)
            else: raise Undecidable('op ' + op)
            memo[x.id] = v
        return memo[n.id]
    def func(self, x, A):
        nm, data = x.data
        if nm in ('sqrt', 'csqrt'):
            self.nfun += 1
            a0 = x.args[0]
            if a0.op == 'c' and a0.real and a0.data[0] > 0: return csqrt_const(a0.data[0])
            return fsqrt(A[0])
        if nm == 'abs':
            self.nfun += 1
            return min(A[0], P-A[0])
        if nm == 'exp': return self.expo(x.args[0])
        if nm in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'):
            hyp = nm.endswith('h')
            e = self.expo(x.args[0] if hyp else E.mul(E.I, x.args[0]))
            ei = inv(e)
            s2, c2 = (e-ei) % P, (e+ei) % P
            h2 = inv(2)
            if nm == 'sinh': return s2*h2 % P
            if nm == 'cosh': return c2*h2 % P
            if nm == 'tanh': return s2*inv(c2) % P
            s = s2*h2 % P * inv(IM) % P; c = c2*h2 % P
            if nm == 'sin': return s
            if nm == 'cos': return c
            return s*inv(c) % P
        if nm == 'atan':
            # odd
            v = A[0]
            if v == 0: return 0
            m = min(v, P-v); r = self.h('atan', m); self.angles[min(r, P-r)] = (1 if r < P-r else -1, 'atan2', (m, 1), ())
            return r if m == v else (P-r) % P
        if nm == 'pow':
            # pow(a, r): multiplicative in rational r>0 only through expanded log
            return self.h('pow', tuple(A))
        if nm == 'hypot': return fsqrt((A[0]*A[0]+A[1]*A[1]) % P)
        r = self.h('uf', nm, data, tuple(A))
        if nm in ('atan2', 'asin', 'acos'): self.angles[min(r, P-r)] = (1 if r < P-r else -1, nm, tuple(A), x.args)
        return r
    def unit(self, a):
        """exp(i angle) of an inverse trigonometric value"""
        sg, nm, A, nd = a
        cs = [q.data[0] for q in nd] if nd and all(q.op == 'c' for q in nd) else None
        if nm == 'atan2':
            y, x = A; c, t, h = x, y, csqrt_const(cs[0]*cs[0]+cs[1]*cs[1]) if cs and len(cs) == 2 else fsqrt((x*x+y*y) % P)
            if h == 0: return None
            h = inv(h); c, t = c*h % P, t*h % P
        else:
            q = csqrt_const(1-cs[0]*cs[0]) if cs and abs(cs[0]) < 1 else fsqrt((1-A[0]*A[0]) % P); c, t = (q, A[0]) if nm == 'asin' else (A[0], q)
        return (c + sg*IM*t) % P
    def pikey(self):
        v = self.ev(E.PI)
        return ((min(v, P-v), 1),)
    # exponent expansion -------------------------------------------------
    def expo(self, arg):
        mon = self.expand(arg)
        r = 1
        kpi = self.pikey()
        if kpi in mon:
            a, b = mon[kpi]
            q = b*360
            if q and q.denominator == 1:
                r = pow(UNIT, int(q) % 720, P); mon = dict(mon); mon[kpi] = (a, Fraction(0))
        for k, (a, b) in mon.items():
            for part, c in (('r', a), ('i', b)):
                if c == 0: continue
                q = c*LEXP
                if part == 'i' and c.denominator == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0] in self.angles:
                    g = self.unit(self.angles[k[0][0]])
                    if g: r = r * pow(g, int(c) % (P-1), P) % P; continue
                if q.denominator == 1:
                    g = self.h('exp', part, k)
                    if g == 0: g = 1
                    r = r * pow(g, int(q) % (P-1), P) % P
                else:
                    r = r * self.h('expq', part, k, c.numerator, c.denominator) % P
        return r
    def expand(self, n, memo=None):
        """dict: frozenset of (atom value, exponent) -> Gaussian rational"""
        op = n.op
        if op == 'c': return {(): n.data} if n is not E.ZERO else {}
        if op == 'v' and n in self.subst: return self.expand(self.subst[n])
        if op == 'cv' and n.args[0].op == 'v' and n.args[0] in self.subst: return self.expand(E.conj(self.subst[n.args[0]]))
        if op == 're': return self.expand(n.args[0])
        if op == '+':
            r = dict(self.expand(n.args[0]))
            for k, (a, b) in self.expand(n.args[1]).items():
                x = r.get(k, (0, 0)); y = (x[0]+a, x[1]+b)
                if y == (0, 0): r.pop(k, None)
                else: r[k] = y
            return r
        if op == '*':
            a = self.expand(n.args[0]); b = self.expand(n.args[1])
            if len(a)*len(b) <= 64: return self._pm(a, b)
        if op == '/':
            b = self.expand(n.args[1])
            if len(b) == 1:
                (k, (p, q)), = b.items()
                d = p*p+q*q
                ib = {tuple((v, -e) for v, e in k): (Fraction(p)/d, -Fraction(q)/d)}
                a = self.expand(n.args[0])
                return self._pm(a, ib)
        v = self.ev(n)
        if v == 0: return {}
        # normalise sign so that atom and -atom are related
        m = min(v, P-v)
        return {((m, 1),): (Fraction(1 if m == v else -1), Fraction(0))}
    def _pm(self, a, b):
        r = {}
        for k1, (p, q) in a.items():
            for k2, (s, t) in b.items():
                d = dict(k1)
                for v, e in k2: d[v] = d.get(v, 0)+e
                k = tuple(sorted((v, e) for v, e in d.items() if e))
                x = r.get(k, (0, 0))
                y = (x[0]+p*s-q*t, x[1]+p*t+q*s)
                if y == (0, 0): r.pop(k, None)
                else: r[k] = y
        return r

class Ctx:
    """path context: equalities (as substitutions) and random samples"""
    def __init__(self, seed=0):
        self.seed = seed
        self.subst = {}
        self.epoch = 0
        self.tries = 0
        self.good = []
        self.conf = {}
    def _new(self):
        self.tries += 1
        return Sample((self.seed, self.epoch, self.tries), self.subst)
    def values(self, nodes, want=1, maxtries=4000):
        """evaluate nodes at `want` samples"""
        out = []
        k = 0; t = 0
        while len(out) < want:
            if k < len(self.good): s = self.good[k]; k += 1; fresh = False
            else: s = self._new(); fresh = True
            try:
                out.append([s.ev(n) for n in nodes])
                if fresh and len(self.good) < 26: self.good.append(s); k += 1
                out_s = s
            except NonResidue:
                if not fresh: self.good.remove(s); k -= 1
                t += 1
                if t > maxtries: raise Undecidable('no residue sample')
        return out
    def is_zero(self, e, want=None):
        if e is E.ZERO: return True
        if e.op == 'c': return False
        if want is None: want = 24 if _has_radical(e) else 1
        vs = self.values([e], 1)
        if vs[0][0] != 0: return False
        if want > 1:
            return all(v[0] == 0 for v in self.values([e], want))
        return True
    def linear_solve(self, e, prefer=None):
        """solve e=0 for a variable it is affine in; install substitution"""
        cand = sorted((v for v in variables_sub(e, self.subst) if v not in self.subst and v is not E.PI and v is not E.INF), key=lambda v: (-v.id))
        if prefer: cand.sort(key=lambda v: 0 if prefer(v) else 1)
        for v in cand:
            for tr in range(400):
                s = self._new()
                try:
                    vals = []
                    for t in (0, 1, 2, 5):
                        s.memo = {}; s.over = {v: t}
                        vals.append(s.ev(e))
                    break
                except NonResidue: continue
                except ZeroDiv: vals = None; break
            else: vals = None
            if vals is None: continue
            b = vals[0]; a = (vals[1]-b) % P
            if a == 0: continue
            if (2*a+b-vals[2]) % P or (5*a+b-vals[3]) % P: continue
            # complex var: conj must not appear
            memo0 = {v.id: E.ZERO}; memo1 = {v.id: E.ONE}
            es = substitute_map(e, self.subst)
            eb = substitute(es, {v: E.ZERO}); e1 = substitute(es, {v: E.ONE})
            if not v.real:
                if any(x.op == 'cv' and x.args[0] is v for x in walk(es)): continue
            self.subst[v] = E.div(E.neg(eb), E.sub(e1, eb))
            if v.real: self.subst[v] = E.asreal(self.subst[v])
            self.epoch += 1; self.good = []
            return v
        return None

def walk(n):
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); yield x
        st.extend(x.args)

def has_fn(n): return any(x.op == 'f' for x in walk(n))
def _has_radical(n):
    for x in walk(n):
        if x.op == 'f' and x.data[0] in ('sqrt', 'csqrt') and x.args[0].op == 'c' and x.args[0].real and x.args[0].data[0] > 0: continue    # coherent constant
        if x.op == 'f' and x.data[0] in ('sqrt', 'csqrt', 'abs', 'hypot', 'atan', 'atan2', 'asin', 'acos'): return True
        if x.op == 'cv' and x.args[0].op != 'v': return True
    return False

def variables_sub(e, subst):
    acc = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'v':
            if x in subst: st.append(subst[x])
            else: acc.add(x)
        st.extend(x.args)
    return acc

def substitute_map(e, subst):
    if not subst: return e
    return substitute(e, subst, deep=True)

def substitute(e, mp, deep=False):
    memo = {}
    def go(n):
        st = [n]
        while st:
            x = st[-1]
            if x.id in memo: st.pop(); continue
            if x.op == 'v':
                if x in mp:
                    t = mp[x]
                    if deep and t.id not in memo and t is not x:
                        st.append(t); continue
                    memo[x.id] = memo[t.id] if deep else t
                else: memo[x.id] = x
                st.pop(); continue
            if x.op == 'cv' and x.args[0].op == 'v':
                v = x.args[0]
                if v in mp: 
                    t = E.conj(mp[v])
                    if deep:
                        if t.id not in memo: st.append(t); continue
                        memo[x.id] = memo[t.id]
                    else: memo[x.id] = t
                else: memo[x.id] = x
                st.pop(); continue
            todo = [a for a in x.args if a.id not in memo]
            if todo: st.extend(todo); continue
            st.pop()
            memo[x.id] = rebuild(x, [memo[a.id] for a in x.args])
        return memo[n.id]
    return go(e)

def rebuild(x, A):
    op = x.op
    if op in ('c', 'b', 'v'): return x
    if op == '+': return E.add(*A)
    if op == '*': return E.mul(*A)
    if op == '/': return E.div(*A)
    if op == 're': return E.asreal(A[0])
    if op == 'cv': return E.conj(A[0])
    if op == 'f': return E.fn(x.data[0], *A, real=x.real, data=x.data[1])
    if op in ('lt', 'le', 'eq'): return E.cmp(op, *A)
    if op == 'not': return E.bnot(A[0])
    if op == 'and': return E.band(*A)
    if op == 'ite': return E.ite(*A)
    raise ValueError(op)
