"""floating-point evaluation of expression DAGs (only used to build candidate
inputs for replaying a failed obligation on the compiled code)"""
import math, cmath, random
from . import expr as E

def _fn(x, A):
    nm, data = x.data
    a = A[0]
    if nm == 'sqrt' or nm == 'csqrt':
        r = cmath.sqrt(a)
        return r
    if nm == 'abs': return abs(a)
    if nm == 'exp': return cmath.exp(a)
    if nm in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos', 'log'): return getattr(cmath, nm)(a)
    if nm == 'atan2': return math.atan2(A[0].real, A[1].real)
    if nm == 'hypot': return math.hypot(A[0].real, A[1].real)
    if nm == 'pow': return A[0]**A[1]
    if nm == 'floor': return math.floor(a.real)
    if nm == 'ceil': return math.ceil(a.real)
    if nm == 'trunc': return math.trunc(a.real)
    if nm == 'round': return math.floor(abs(a.real)+.5)*(1 if a.real >= 0 else -1)
    if nm == 'jn':
        from scipy.special import jv
        return complex(jv(data, a.real))
    raise ValueError(nm)

def evalnum(n, env, memo):
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        if x.op == 'v':
            if x is E.PI: memo[x.id] = math.pi
            elif x is E.INF: memo[x.id] = math.inf
            else: memo[x.id] = env[x]
            st.pop(); continue
        todo = [a for a in x.args if a.id not in memo]
        if todo: st.extend(todo); continue
        st.pop()
        A = [memo[a.id] for a in x.args]; op = x.op
        if op == 'c': v = complex(float(x.data[0]), float(x.data[1]))
        elif op == '+': v = A[0]+A[1]
        elif op == '*': v = A[0]*A[1]
        elif op == '/': v = A[0]/A[1]
        elif op == 're': v = complex(A[0]).real
        elif op == 'cv': v = complex(A[0]).conjugate()
        elif op == 'f': v = _fn(x, [complex(a) for a in A])
        elif op == 'ite': v = A[1] if A[0] else A[2]
        elif op == 'b': v = x.data
        elif op == 'lt': v = complex(A[0]).real < complex(A[1]).real
        elif op == 'le': v = complex(A[0]).real <= complex(A[1]).real
        elif op == 'eq': v = abs(A[0]-A[1]) <= 1e-9*(1e-30+abs(A[0])+abs(A[1]))
        elif op == 'not': v = not A[0]
        elif op == 'and': v = A[0] and A[1]
        else: raise ValueError(op)
        memo[x.id] = v
    return memo[n.id]

def candidates(snap, want=12, seed=1, model=None, tlimit=10):
    import time
    t0 = time.time()
    rng = random.Random(seed)
    out = []
    ins = snap['inputs']; subst = snap['subst']
    tries = 0
    while len(out) < want and tries < 4000 and time.time()-t0 < tlimit:
        tries += 1
        env = {}; vals = {}
        usem = model is not None and tries % 2 == 1
        for it in ins:
            name, kind, v = it[:3]
            lo, hi = (it[3], it[4]) if len(it) > 4 else (-2, 2)
            if kind == 'i': vals[name] = (v, 0); continue
            if usem and v.data in model and (tries == 1 or rng.random() < 0.7):
                m = model[v.data]
                env[v] = complex(*m) if isinstance(m, tuple) else m
            elif kind == 'n': env[v] = rng.randint(int(lo), int(min(hi, lo+20)))
            elif kind == 'c': env[v] = complex(lo+(hi-lo)*rng.random(), lo+(hi-lo)*rng.random())
            elif rng.random() < 0.1: env[v] = float(rng.choice([lo, hi, round(lo+(hi-lo)*rng.random())]))
            elif rng.random() < 0.1 and env:
                c = [w for u, w in env.items() if not isinstance(w, complex)]
                env[v] = rng.choice(c) if c else lo
            else: env[v] = lo+(hi-lo)*rng.random()
        try:
            memo = {}
            todo = [v for v in subst]
            # dependency order: evaluate with recursion on substituted variables
            def val(v, stack=()):
                if v in stack: raise ValueError
                for w in E.variables(subst[v]):
                    if w in subst and w is not v: 
                        val(w, stack+(v,))
                r = evalnum(subst[v], env, {})
                if v.real: r = complex(r).real
                env[v] = r
            for v in todo: val(v)
            memo = {}
            ok = True
            for f, t in snap['facts']:
                if bool(evalnum(f, env, memo)) != t: ok = False; break
            if not ok: continue
        except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError): continue
        for it in ins:
            if it[1] == 'i': continue
            r = complex(env[it[2]]); vals[it[0]] = (r.real, r.imag)
        out.append(vals)
    return out

# ---- high-precision cross-check of a refuted identity
def _mpfn(mp, x, A):
    nm, data = x.data
    a = A[0] if A else None
    if nm in ('sqrt', 'csqrt'): return mp.sqrt(a)
    if nm == 'abs': return abs(a)
    if nm in ('exp', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos', 'log'): return getattr(mp, nm)(a)
    if nm == 'atan2': return mp.atan2(mp.re(A[0]), mp.re(A[1]))
    if nm == 'hypot': return mp.hypot(mp.re(A[0]), mp.re(A[1]))
    if nm == 'pow': return A[0]**A[1]
    if nm in ('floor', 'ceil'): return getattr(mp, nm)(mp.re(a))
    if nm == 'trunc': return mp.floor(a.real) if a.real >= 0 else mp.ceil(a.real)
    if nm == 'round': return mp.floor(abs(a.real)+mp.mpf(1)/2)*(1 if a.real >= 0 else -1)
    import hashlib                                      # uninterpreted: a function of the (rounded) arguments
    key = repr((nm, data, [(mp.nstr(mp.re(v), 25), mp.nstr(mp.im(v), 25)) for v in A]))
    h = hashlib.blake2b(key.encode(), digest_size=16).digest()
    r = mp.mpf(int.from_bytes(h[:8], 'big'))/2**64+mp.mpf(1)/4
    return r if x.real else mp.mpc(r, mp.mpf(int.from_bytes(h[8:], 'big'))/2**64)

def mpeval(mp, n, env, memo):
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        if x.op == 'v':
            memo[x.id] = +mp.pi if x is E.PI else mp.inf if x is E.INF else env[x]
            st.pop(); continue
        todo = [a for a in x.args if a.id not in memo]
        if todo: st.extend(todo); continue
        st.pop()
        A = [memo[a.id] for a in x.args]; op = x.op
        if op == 'c':
            v = mp.mpf(x.data[0].numerator)/x.data[0].denominator
            if x.data[1]: v = mp.mpc(v, mp.mpf(x.data[1].numerator)/x.data[1].denominator)
        elif op == '+': v = A[0]+A[1]
        elif op == '*': v = A[0]*A[1]
        elif op == '/': v = A[0]/A[1]
        elif op == 're': v = mp.re(A[0])
        elif op == 'cv': v = mp.conj(A[0])
        elif op == 'f':
            v = _mpfn(mp, x, A)
            if x.real: v = mp.re(v)
        elif op == 'ite': v = A[1] if A[0] else A[2]
        elif op == 'b': v = x.data
        elif op == 'lt': v = mp.re(A[0]) < mp.re(A[1])
        elif op == 'le': v = mp.re(A[0]) <= mp.re(A[1])
        elif op == 'eq': v = abs(A[0]-A[1]) <= mp.mpf(10)**-30*(abs(A[0])+abs(A[1])+mp.mpf(10)**-20)
        elif op == 'not': v = not A[0]
        elif op == 'and': v = A[0] and A[1]
        else: raise ValueError(op)
        memo[x.id] = v
    return memo[n.id]

_pts = {}
def _points(mp, snap, key, want=3, tlimit=6):
    """environments (50 digits) that satisfy the facts of the path"""
    import time
    if key in _pts: return _pts[key]
    out = []; t0 = time.time(); rng = random.Random(7); subst = snap['subst']
    for tries in range(3000):
        if len(out) >= want or time.time()-t0 > tlimit: break
        env = {}; memo = {}
        for it in snap['inputs']:
            name, kind, v = it[:3]; lo, hi = (it[3], it[4]) if len(it) > 4 else (-2, 2)
            u = lambda: mp.mpf(lo)+(mp.mpf(hi)-lo)*mp.mpf(rng.getrandbits(80))/2**80
            if kind == 'i': continue
            env[v] = mp.mpf(rng.randint(int(lo), int(min(hi, lo+20)))) if kind == 'n' else mp.mpc(u(), u()) if kind == 'c' else u()
        def val(v, stack=()):
            if v in stack: raise ValueError
            for w in E.variables(subst[v]):
                if w in subst and w is not v: val(w, stack+(v,))
            r = mpeval(mp, subst[v], env, {})
            env[v] = mp.re(r) if v.real else r
        try:
            for v in subst: val(v)
            if all(bool(mpeval(mp, f, env, memo)) == t for f, t in snap['facts']): out.append((env, memo))
        except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, ArithmeticError): continue
    if len(_pts) > 50: _pts.clear()
    _pts[key] = out
    return out

def agrees(snap, key, a, b):
    """True: a and b agree to 30 digits at all points found on the path (the refutation is an artefact of the sign of
    a root); False: they differ at one; None: no point found"""
    import mpmath as mp
    old = mp.mp.dps; mp.mp.dps = 60
    try:
        r = None
        for env, memo in _points(mp, snap, key):
            try: x, y = mpeval(mp, a, env, memo), mpeval(mp, b, env, memo)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, ArithmeticError): continue
            if abs(x-y) > mp.mpf(10)**-25*(abs(x)+abs(y)+mp.mpf(10)**-20): return False
            r = True
        return r
    finally: mp.mp.dps = old
