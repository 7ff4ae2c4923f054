"""Symbolic evaluation of the clang AST (strongest-postcondition style, path by
path): every path of a contract harness through the real functions is executed
with the inputs as indeterminates; obligations are decided by cv.pit / z3."""
import re, time, math
from fractions import Fraction
from . import expr as E
from . import pit, smt
from .cfront import T, tptr, VOID, tflt, tint, FrontError

class Unsupported(Exception): pass
class PathEnd(Exception): pass          # assume(false) / infeasible
class ExitCalled(Exception):
    def __init__(s, code): s.code = code
class BreakX(Exception): pass
class ContX(Exception): pass
class RetX(Exception):
    def __init__(s, v): s.v = v
class GotoX(Exception):
    def __init__(s, l): s.l = l
class UB(Exception): pass

class Obj:
    __slots__ = ('id', 'cells', 'size', 'zero', 'zr', 'name', 'lazy', 'dead', 'ro', 'heap')
    def __init__(s, id, size, name='', zero=False):
        s.id = id; s.cells = {}; s.size = size; s.zero = zero; s.zr = []; s.name = name; s.lazy = None; s.dead = False
        s.ro = False; s.heap = False

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off=0): s.o = o; s.off = off
    def __repr__(s): return '&%s+%s' % (s.o.name if s.o else 'NULL', s.off)
NULL = Ptr(None, 0)

class Fn:
    __slots__ = ('tu', 'name')
    def __init__(s, tu, name): s.tu = tu; s.name = name

class SV:      # struct / array value snapshot
    __slots__ = ('o', 'off', 't')
    def __init__(s, o, off, t): s.o = o; s.off = off; s.t = t

class Undef:
    pass
UNDEF = Undef()
class Poison:
    """value of an uninitialised object or of a division by zero: harmless until the program depends on it"""
    __slots__ = ('why',)
    def __init__(s, why): s.why = why

_litc = {}
_PIQ = sorted({Fraction(n, d) for n in range(-8, 9) if n for d in (1, 2, 3, 4, 6, 8, 90, 180, 360)} | {1/Fraction(1)}, key=lambda f: (f.denominator, abs(f)))
def literal(sv, isfloat32=False):
    key = (sv, isfloat32)
    r = _litc.get(key)
    if r is not None: return r
    f = float(sv)
    if math.isinf(f): r = E.INF if f > 0 else E.neg(E.INF)
    else:
        r = None
        if isfloat32:
            import struct
            # shortest decimal that rounds to this float
            for prec in range(1, 12):
                t = '%.*g' % (prec, f)
                if struct.unpack('f', struct.pack('f', float(t)))[0] == struct.unpack('f', struct.pack('f', f))[0]:
                    r = E.const(Fraction(t)); break
        else:
            digits = len(re.sub(r'[eE].*', '', repr(f)).replace('.', '').replace('-', '').strip('0'))
            if f != 0 and digits >= 13:
                ulp = abs(f)*2.3e-16*2
                for q in _PIQ:
                    if abs(f - float(q)*math.pi) <= ulp: r = E.mul(E.const(q), E.PI); break
                if r is None:
                    for base in (f, f/math.pi, f*math.pi):
                        pass
                    q = Fraction(f).limit_denominator(1000)
                    if abs(float(q)-f) <= ulp and q.denominator > 1: r = E.const(q)
                if r is None:
                    q = Fraction(f*f).limit_denominator(100)
                    if abs(float(q)-f*f) <= 3*ulp*abs(f) and q != 0:
                        r = E.fn('sqrt', E.const(q))
                        if f < 0: r = E.neg(r)
            if r is None: r = E.const(Fraction(repr(f)))
    _litc[key] = r
    return r

class Path:
    """decision oracle + facts for one execution path"""
    def __init__(s, prefix, opts):
        s.prefix = prefix; s.dec = []; s.alts = []
        s.ctx = pit.Ctx(opts.get('seed', 1))
        s.facts = []          # list of (cond node, truth)
        s.opts = opts
        s.key = ()
    def nway(s, n, tag):
        i = len(s.dec)
        if i < len(s.prefix): c = s.prefix[i]
        else:
            c = 0
            for k in range(n-1, 0, -1): s.alts.append(tuple(s.dec) + (k,))
        s.dec.append(c)
        return c
    def assume(s, c, truth=True):
        """add fact"""
        if c.op == 'not': return s.assume(c.args[0], not truth)
        if c.op == 'and':
            if truth: s.assume(c.args[0]); s.assume(c.args[1])
            else: s.facts.append((c, False)); s.key += ((c.id, False),)
            return
        if c.op == 'b':
            if c.data != truth: raise PathEnd()
            return
        s.facts.append((c, truth)); s.key += ((c.id, truth),)
        if c.op == 'eq' and truth:
            d = E.sub(c.args[0], c.args[1])
            try:
                if s.ctx.is_zero(d): return
            except pit.ZeroDiv: return
            v = s.ctx.linear_solve(d)
            if v is None:
                s.facts_unsolved = getattr(s, 'facts_unsolved', 0) + 1
    def known(s, c):
        """True/False/None"""
        if c.op == 'b': return c.data
        if c.op == 'not':
            k = s.known(c.args[0]); return None if k is None else not k
        if c.op == 'and':
            k1 = s.known(c.args[0]); 
            if k1 is False: return False
            k2 = s.known(c.args[1])
            if k2 is False: return False
            return True if (k1 and k2) else None
        for f, t in s.facts:
            if f is c: return t
        a, b = c.args
        if s.ctx.subst:
            a2 = pit.substitute_map(a, s.ctx.subst); b2 = pit.substitute_map(b, s.ctx.subst)
            c2 = E.cmp(c.op, a2, b2)
            if c2.op == 'b': return c2.data
            a, b = a2, b2
        d = E.sub(a, b)
        if d.op == 'c':
            if c.op == 'eq': return d is E.ZERO
            return d.data[0] < 0 if c.op == 'lt' else d.data[0] <= 0
        v = E.constnum(d)
        if v is not None:
            import mpmath
            if abs(v) > mpmath.mpf(10)**-30*(1 + max(abs(x) for x in (E.constnum(a) or 0, E.constnum(b) or 0))):
                if c.op == 'eq': return False
                return bool(v.real < 0)
        if c.op == 'eq':
            r = s.prop_eq(d)
            if r is not None: return r
        try:
            if not any(x.op == 'ite' for x in pit.walk(d)):
                if s.ctx.is_zero(d): return c.op != 'lt'
                # constant difference?
                vs = s.ctx.values([d], 2)
                if vs[0][0] == vs[1][0]:
                    v = vs[0][0]
                    for cand in (v, v - pit.P):
                        if abs(cand) < 10**9:
                            if s.ctx.is_zero(E.sub(d, E.const(cand))):
                                return (False if c.op == 'eq' else (cand < 0 if c.op == 'lt' else cand <= 0))
        except (pit.ZeroDiv, pit.Undecidable): pass
        return smt.entailed(s, c)
    def prop_eq(s, d):
        fs = [E.sub(f.args[0], f.args[1]) for f, t in s.facts if f.op == 'eq' and not t]
        if not fs: return None
        try:
            vs = s.ctx.values([d] + fs, 3)
        except (pit.ZeroDiv, pit.Undecidable): return None
        for i in range(1, len(fs)+1):
            r = set()
            for v in vs:
                if v[0] == 0: break
                r.add(v[i]*pit.inv(v[0]) % pit.P)
            else:
                if len(r) == 1: return False
        return None
    def decide(s, c):
        if c.op == 'b': return c.data
        if c.op == 'not': return not s.decide(c.args[0])
        if c.op == 'and': return s.decide(c.args[0]) and s.decide(c.args[1])
        k = s.known(c)
        if k is not None: return k
        i = len(s.dec)
        if i < len(s.prefix): v = s.prefix[i]
        else:
            pref = s.opts.get('prefer')
            v = 1 if c.op == 'eq' else 0       # explore generic (not-equal / false) first
            v = 0
            s.alts.append(tuple(s.dec) + (1,))
        s.dec.append(v)
        s.assume(c, bool(v))
        if s.opts.get('feas', True) and i >= len(s.prefix)-1:
            if not smt.feasible(s): raise PathEnd()
        return bool(v)

class Obl:
    __slots__ = ('name', 'status', 'info', 'path', 'lhs', 'rhs', 'backend')
    def __init__(s, name, status, info='', path=None, backend=''):
        s.name = name; s.status = status; s.info = info; s.path = path; s.backend = backend
        s.lhs = s.rhs = None

NOOPS = {'perror', 'vfprintf', 'vprintf', '__assert_fail', 'setbuf', 'setvbuf', 'omp_set_num_threads', 'grt_printprogressBar'}

class Interp:
    def __init__(s, prog, opts=None):
        s.prog = prog
        s.opts = opts or {}
        s.replace = s.opts.get('replace', {})
        s.touched = set()
        s.called = set()
        s.by_contract = set()

    # ------------------------------------------------------------ exploration
    def explore(s, fname, maxpaths=3000, tlimit=300):
        """run all paths of a harness; returns list of Obl and stats"""
        tu, fd = s.prog.find_func(fname, s.prog.main)
        if fd is None: raise FrontError('no harness ' + fname)
        work = [()]
        obls = []; npaths = 0; nend = 0; t0 = time.time(); done = 0
        unknown = None
        nexit = 0
        while work:
            if npaths >= maxpaths or time.time()-t0 > tlimit:
                unknown = 'path/time limit (%d paths, %d pending)' % (npaths, len(work)); break
            prefix = work.pop()
            npaths += 1
            s.start(prefix)
            try:
                s.call_fd(tu, fd, [])
                done += 1
                if s.must_exit: s.oblige_bool(s.must_exit, False, 'returned normally')
            except PathEnd: nend += 1
            except ExitCalled as e:
                nexit += 1
                if s.exit_ok: done += 1
                elif s.must_exit:
                    done += 1; s.oblige_bool(s.must_exit, e.code != 0, 'exit status 0')
                else:
                    s.oblige_bool('no-abort', False, 'path reaches exit(%s)' % e.code)
            except pit.ZeroDiv as e:
                s.obls.append(Obl('defined', 'failed', 'division by expression that is identically zero on this path: %s' % E.show(e.args[0], 4), s.snapshot()))
            except UB as e:
                if smt.prove(s.path, E.FALSE)[0] is not True: s.obls.append(Obl('defined', 'failed', 'undefined behaviour: %s' % e, s.snapshot()))
            except RecursionError: raise Unsupported('recursion depth')
            obls.extend(s.obls)
            work.extend(s.path.alts)
        return dict(obls=obls, paths=npaths, completed=done, infeasible=nend, exits=nexit, unknown=unknown, time=time.time()-t0)

    def start(s, prefix):
        s.path = Path(prefix, s.opts)
        s.nobj = 0; s.nfresh = {}; s.globals_mem = {}; s.obls = []; s.inputs = []; s.exit_ok = False; s.must_exit = None
        s.statics = {}
        s.depth = 0; s.steps = 0; s.observe = {}; s.heap = []; s.tags = []
        s.strs = {}
        s.frames = []
        s.bounded = getattr(s, 'bounded', {}); s.covers = getattr(s, 'covers', set())

    def snapshot(s):
        return dict(facts=list(s.path.facts), dec=list(s.path.dec), inputs=list(s.inputs), subst=dict(s.path.ctx.subst), tags=list(s.tags))

    def oblige(s, name, cond, info=''):
        k = s.path.known(cond)
        o = Obl(name, 'unknown', info, None, 'z3')
        if k is True: o.status = 'proved'
        else:
            mdl = None
            if k is False: o.status = 'failed' if s.reachable() else 'unknown'
            else:
                r, mdl = smt.prove(s.path, cond)
                if r is True: o.status = 'proved'
                elif r is False: o.status = 'failed'
            if o.status != 'proved':
                o.path = s.snapshot(); o.path['model'] = mdl; o.info += ' cond=' + E.show(cond, 5)[:400]
        s.obls.append(o)

    def reachable(s):
        """definitely satisfiable path condition"""
        if not s.path.facts: return True
        r, m = smt.prove(s.path, E.FALSE)
        return r is False

    def oblige_bool(s, name, v, info=''):
        o = Obl(name, 'proved' if v else ('failed' if s.reachable() else 'unknown'), info, None, 'path')
        if not v:
            o.path = s.snapshot(); o.info += ' false on a path'
        s.obls.append(o)

    def oblige_eq(s, name, a, b):
        if a.op == 'c' and b.op == 'c' or a is b:
            ok = a is b or a.data == b.data
            z = ok; be = 'normal-form'
        else:
            d = E.sub(a, b)
            try:
                if any(x.op == 'ite' for x in pit.walk(d)): raise pit.Undecidable('ite')
                z = s.path.ctx.is_zero(d); be = 'pit'
            except pit.Undecidable as e:
                o = Obl(name, 'unknown', 'undecidable: %s' % e, s.snapshot()); s.obls.append(o); return
            if not z and getattr(s.path, 'facts_unsolved', 0):
                o = Obl(name, 'unknown', 'unsolved path equality', s.snapshot()); s.obls.append(o); return
        if not z and s.path.facts:
            r, m = smt.prove(s.path, E.FALSE)
            if r is True: s.obls.append(Obl(name, 'proved', 'infeasible path', None, 'path')); return
            if r is None and m is None: s.obls.append(Obl(name, 'unknown', 'path feasibility undecided', s.snapshot())); return
            if be == 'pit' and d.real and s.eqtries < 12 and len(E.variables(d)) <= 12:
                # equality that follows from the inequalities of the path only (ties of a minimum)
                r, m = smt.prove(s.path, E.cmp('eq', d, E.ZERO))
                if r is True: s.obls.append(Obl(name, 'proved', '', None, 'z3')); return
                s.eqtries += 1
        if not z and be == 'pit' and pit.has_fn(d):
            from . import numev
            if numev.agrees(s.snapshot(), s.path.key, a, b):
                s.obls.append(Obl(name, 'unknown', 'algebraic refutation contradicted by 60-digit evaluation (sign of a root, constants of exp): lhs=%s rhs=%s' % (E.show(a, 4)[:200], E.show(b, 4)[:200]), s.snapshot())); return
        o = Obl(name, 'proved' if z else 'failed', '', None, be)
        o.lhs, o.rhs = a, b
        if not z:
            o.path = s.snapshot(); o.info = 'lhs=%s rhs=%s' % (E.show(a, 4)[:300], E.show(b, 4)[:300])
        s.obls.append(o)

    eqtries = 0

    # ------------------------------------------------------------ memory
    def new(s, size, name='', zero=False):
        s.nobj += 1
        return Obj(s.nobj, size, name, zero)

    def fresh(s, base, real=True, sort='N'):
        k = s.nfresh.get(base, 0); s.nfresh[base] = k+1
        return E.var('%s#%d' % (base, k), real, sort)

    def zero_of(s, t):
        if t.k in ('int', 'bool'): return 0
        if t.k in ('flt', 'cpx'): return E.ZERO
        if t.k == 'ptr': return NULL
        raise Unsupported('zero of ' + t.k)

    def chk(s, o, off, size):
        if o is None: raise UB('null pointer access')
        if o.dead: raise UB('use after free of ' + o.name)
        if isinstance(off, int):
            if off < 0 or (o.size is not None and off + size > o.size):
                raise UB('out-of-bounds access: %s offset %d size %d of %s' % (o.name, off, size, o.size))

    def load(s, o, off, t):
        if t.k in ('rec', 'arr'): return s.snap(o, off, t)
        if t.k == 'func': return Ptr(o, off)
        s.chk(o, off, t.size)
        if not isinstance(off, int): off = s.symoff(o, off, t)
        v = o.cells.get(off)
        if v is None:
            # complex component access
            if t.k == 'flt':
                c = o.cells.get(off - t.size)
                if isinstance(c, E.Node) and not isinstance(off, tuple):
                    return E.im(c) if off - t.size in o.cells and s._iscpx(o, off - t.size) else s._miss(o, off, t)
            if t.k == 'cpx':
                return s._miss(o, off, t)
            return s._miss(o, off, t)
        if v is UNDEF: return Poison('read of uninitialised %s+%s' % (o.name, off))
        if isinstance(v, E.Node):
            if t.k == 'flt' and not v.real:
                if s._iscpx(o, off): return E.re(v)
                return v
            if t.k in ('flt',) and s._iscpx(o, off): return E.re(v)
            if t.k == 'cpx':
                nxt = o.cells.get(off + t.size//2) if isinstance(off, int) else None
                if isinstance(nxt, E.Node): return E.add(v, E.mul(E.I, nxt))
            return v
        if isinstance(v, int) and t.k == 'int' and not t.signed and v < 0: return v & ((1 << (8*t.size))-1)
        if isinstance(v, int) and t.k in ('flt', 'cpx'):
            if v == 0: return E.ZERO
            raise Unsupported('int cell read as float')
        if isinstance(v, int) and t.k == 'ptr':
            if v == 0: return NULL
            raise Unsupported('int cell as pointer')
        return v

    def _iscpx(s, o, off):
        return ('C', off) in o.cells

    def _miss(s, o, off, t):
        if o.lazy is not None:
            v = o.lazy(s, o, off, t)
            if v is not None:
                o.cells[off] = v
                return v
        if o.zero and isinstance(off, int): return s.zero_of(t)
        if isinstance(off, int):
            for a, b in o.zr:
                if a <= off and off + t.size <= b: return s.zero_of(t)
        if t.k in ('int', 'bool', 'flt', 'cpx'): return Poison('read of uninitialised %s+%s' % (o.name, off))
        raise UB('read of uninitialised %s+%s' % (o.name, off))

    def store(s, o, off, t, v):
        if isinstance(v, SV): return s.copyval(o, off, v)
        s.chk(o, off, t.size)
        if o.ro: raise UB('write to read-only ' + o.name)
        if not isinstance(off, int): off = s.symoff(o, off, t)
        if t.k == 'int' and isinstance(v, int):
            m = 1 << (8*t.size); v &= m-1
            if t.signed and v >= m >> 1: v -= m
        if t.k == 'bool' and isinstance(v, int): v = 1 if v else 0
        o.cells[off] = v
        if t.k == 'cpx':
            o.cells[('C', off)] = True
            if isinstance(off, int): o.cells.pop(off + t.size//2, None)
        else:
            if ('C', off) in o.cells:
                del o.cells[('C', off)]
            if t.k == 'flt' and isinstance(off, int) and ('C', off-t.size) in o.cells:
                c = o.cells[off-t.size]; del o.cells[('C', off-t.size)]
                o.cells[off-t.size] = E.re(c)

    def symoff(s, o, off, t):
        """symbolic byte offset -> canonical key"""
        f = s.path.ctx.values([off], 1)[0][0]
        q = f * pit.inv(t.size) % pit.P
        if q < (1 << 40): return q * t.size
        # constant?  otherwise key by value; refuse if the object has other symbolic keys that may alias
        key = ('S', off)
        for k in list(o.cells):
            if isinstance(k, tuple) and k[0] == 'S':
                if s.path.ctx.is_zero(E.sub(k[1], off)): return k
        for k in list(o.cells):
            if isinstance(k, tuple) and k[0] == 'S':
                if s.path.decide(E.cmp('eq', k[1], off)): return k
            elif isinstance(k, int):
                if s.path.decide(E.cmp('eq', E.const(k), off)): return k
        return key

    def snap(s, o, off, t):
        s.chk(o, off, t.size)
        n = s.new(t.size, 'tmp')
        s.rawcopy(n, 0, o, off, t.size)
        return SV(n, 0, t)

    def copyval(s, o, off, v):
        s.chk(o, off, v.t.size)
        s.rawcopy(o, off, v.o, v.off, v.t.size)

    def rawcopy(s, d, doff, src, soff, n):
        if not isinstance(n, int) or not isinstance(doff, int) or not isinstance(soff, int): raise Unsupported('symbolic memcpy')
        items = []
        for k, v in src.cells.items():
            if isinstance(k, int):
                if soff <= k < soff+n: items.append((k-soff, v))
            elif k[0] == 'C' and isinstance(k[1], int):
                if soff <= k[1] < soff+n: items.append((('C', k[1]-soff), v))
            elif k[0] == 'S': raise Unsupported('memcpy with symbolic cells')
        zr = [(max(a, soff)-soff, min(b, soff+n)-soff) for a, b in src.zr if a < soff+n and b > soff]
        if src.zero: zr = [(0, n)]
        lz = src.lazy
        s.clear(d, doff, n)
        for k, v in items:
            if isinstance(k, int): d.cells[k+doff] = v
            else: d.cells[('C', k[1]+doff)] = v
        for a, b in zr: d.zr.append((a+doff, b+doff))
        if lz is not None:
            if doff == 0 and d.lazy is None and not d.zero:
                def lazy(it, o, off, t, src=src, soff=soff):
                    if isinstance(off, int) and 0 <= off < n: return it.load(src, off+soff, t)
                    return None
                # snapshot semantics: source must not change afterwards for unmaterialised cells
                d.lazy = lazy
            else: raise Unsupported('memcpy from lazy object')

    def clear(s, d, off, n):
        for k in list(d.cells):
            if isinstance(k, int):
                if off <= k < off+n: del d.cells[k]
            elif k[0] == 'C' and isinstance(k[1], int):
                if off <= k[1] < off+n: del d.cells[k]
        if d.zr:
            z = []
            for a, b in d.zr:
                if b <= off or a >= off+n: z.append((a, b)); continue
                if a < off: z.append((a, off))
                if b > off+n: z.append((off+n, b))
            d.zr = z
        if d.zero:
            d.zero = False
            if d.size is None: raise Unsupported('unsized zero object')
            if off > 0: d.zr.append((0, off))
            if off+n < d.size: d.zr.append((off+n, d.size))

    # ------------------------------------------------------------ calls
    def call_fd(s, tu, fd, args):
        s.depth += 1
        if s.depth > 60: raise Unsupported('call depth')
        name = fd['name']
        s.called.add(name)
        fr = {}
        i = 0
        body = None; vmp = []
        for c in fd.get('inner', ()):
            k = c.get('kind')
            if k == 'ParmVarDecl':
                t = tu.ty(c['type'])
                o = s.new(t.size, c.get('name', '?'))
                if t.k == 'ptr' and s.vm(t): vmp.append(c['id'])
                if i < len(args): s.store(o, 0, t, args[i])
                fr[c['id']] = (o, t); i += 1
            elif k == 'CompoundStmt': body = c
        old = getattr(s, 'fr', None), getattr(s, 'tu', None), getattr(s, 'cur', None)
        s.fr = fr; s.tu = tu; s.cur = name
        s.frames.append((name, fr))
        for k in vmp: fr[k] = (fr[k][0], s.resolve(fr[k][1]))
        try:
            s.stmt(body); rv = None
        except RetX as r: rv = r.v
        finally:
            s.fr, s.tu, s.cur = old; s.depth -= 1
            s.frames.pop()
        return rv

    def call(s, name, args, n):
        from . import builtins as B
        if name in s.replace and not (s.cur or '').startswith('contract__'):
            cn = s.replace[name]
            tu, fd = s.prog.find_func(cn, s.prog.main)
            if fd is None: raise FrontError('no contract ' + cn)
            s.by_contract.add(name)
            return s.call_fd(tu, fd, args)
        b = B.lookup(name)
        if b is not None: return b(s, args, n)
        if name in NOOPS: return 0
        tu, fd = s.prog.find_func(name, s.tu)
        if fd is None: raise Unsupported('external function ' + name)
        return s.call_fd(tu, fd, args)

    # ------------------------------------------------------------ statements
    def stmt(s, n):
        if not n: return
        s.steps += 1
        if s.steps > 4000000: raise Unsupported('step limit')
        m = STMT.get(n['kind'])
        if m is not None: return m(s, n)
        s.ev(n)

    def st_compound(s, n):
        inner = n.get('inner', ())
        i = 0
        while i < len(inner):
            try:
                for j in range(i, len(inner)):
                    i = j
                    s.stmt(inner[j])
                return
            except GotoX as g:
                for j, c in enumerate(inner):
                    if s.has_label(c, g.l):
                        i = j; break
                else: raise
    def has_label(s, c, l):
        while c and c.get('kind') == 'LabelStmt':
            if c.get('declId') == l: return True
            c = c['inner'][0] if c.get('inner') else None
        return False
    def st_label(s, n):
        for c in n.get('inner', ()): s.stmt(c)
    def st_goto(s, n): raise GotoX(n['targetLabelDeclId'])
    def st_decl(s, n):
        for c in n.get('inner', ()):
            if c['kind'] == 'VarDecl': s.vardecl(c)
            elif c['kind'] in ('RecordDecl', 'EnumDecl', 'TypedefDecl'):
                s.tu._decl(c) if c['kind'] != 'EnumDecl' else s.tu._decl(c)
    def vardecl(s, c):
        t = s.ty(c['type'])
        if c.get('storageClass') == 'extern':
            return
        if c.get('storageClass') == 'static':
            key = (s.tu.path, c['id'])
            if key in s.statics: s.fr[c['id']] = s.statics[key]; return
            o = s.new(t.size, c.get('name', ''), True)
            s.statics[key] = (o, t); s.fr[c['id']] = (o, t)
            if 'init' in c: s.init(o, 0, t, [x for x in c['inner'] if not x.get('kind', '').endswith(('Attr','Comment'))][-1])
            return
        o = s.new(t.size, c.get('name', ''))
        s.fr[c['id']] = (o, t)
        if 'init' in c: s.init(o, 0, t, [x for x in c['inner'] if not x.get('kind', '').endswith(('Attr','Comment'))][-1])
    def _vla(s, t):
        while t.k == 'arr':
            if t.n is None: return True
            t = t.to
        return False
    def ty(s, td):
        t = s.tu.ty(td)
        return s.resolve(t) if s.vm(t) else t
    def vm(s, t):
        while t is not None and t.k in ('arr', 'ptr'):
            if t.k == 'arr' and isinstance(t.n, str): return True
            t = t.to
        return False
    def resolve(s, t):
        if t.k == 'ptr': return tptr(s.resolve(t.to)) if s.vm(t.to) else t
        if t.k == 'arr':
            b = s.resolve(t.to) if s.vm(t.to) else t.to
            n = t.n
            if isinstance(n, str): n = s.dim(n)
            return T('arr', to=b, n=n, size=(b.size*n if n is not None else 0), align=b.align)
        return t
    def dim(s, x):
        def sub(m):
            v = s.lookup_local(m.group(0))
            if not isinstance(v, int): raise Unsupported('symbolic array dimension ' + x)
            return str(v)
        y = re.sub(r'[A-Za-z_]\w*', sub, x)
        if not re.fullmatch(r'[\d\s+*()-]+', y): raise Unsupported('array dimension ' + x)
        return int(eval(y))
    def lookup_local(s, name):
        for i in reversed(list(s.fr)):
            o, t = s.fr[i]
            if o.name == name: return s.load(o, 0, t)
        raise Unsupported('local ' + name)
    def st_return(s, n):
        c = n.get('inner')
        raise RetX(s.ev(c[0]) if c else None)
    def st_if(s, n):
        c = n['inner']
        if s.cond(c[0]): s.stmt(c[1])
        elif len(c) > 2: s.stmt(c[2])
    def st_for(s, n):
        init, _, cond, inc, body = n['inner']
        if init: s.stmt(init)
        s.loop(n, cond, inc, body)
    def st_while(s, n):
        c = n['inner']
        s.loop(n, c[0], None, c[1])
    def loop(s, n, cond, inc, body, post=False):
        cnt = 0
        d0 = len(s.path.dec)
        while True:
            if not post or cnt:
                if cond and not s.cond(cond): break
            cnt += 1
            if cnt > 200000: raise Unsupported('loop bound')
            if len(s.path.dec) - d0 > s.opts.get('loopdec', 80): raise Unsupported('loop with unbounded symbolic guard')
            try: s.stmt(body)
            except BreakX: break
            except ContX: pass
            if inc: s.ev(inc)
    def st_do(s, n):
        c = n['inner']
        s.loop(n, c[1], None, c[0], True)
    def st_break(s, n): raise BreakX()
    def st_cont(s, n): raise ContX()
    def st_null(s, n): pass
    def st_switch(s, n):
        c = n['inner']
        v = s.ev(c[0])
        if isinstance(v, E.Node): raise Unsupported('symbolic switch')
        body = c[-1]
        flat = body.get('inner', ()) if body['kind'] == 'CompoundStmt' else [body]
        # flatten case nests
        def labels(x):
            ls = []
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    ls.append(s.ev(x['inner'][0])); x = x['inner'][-1]
                else: ls.append('default'); x = x['inner'][-1]
            return ls, x
        start = None; dflt = None
        items = []
        for i, x in enumerate(flat):
            ls, st = labels(x); items.append(st)
            if v in [l for l in ls if l != 'default'] and start is None: start = i
            if 'default' in ls: dflt = i
        if start is None: start = dflt
        if start is None: return
        try:
            for st in items[start:]: s.stmt(st)
        except BreakX: pass

    # ------------------------------------------------------------ initialisers
    def init(s, o, off, t, n):
        while n['kind'] in ('ConstantExpr',): n = n['inner'][0]
        if n['kind'] == 'ImplicitValueInitExpr' : return s.zinit(o, off, t)
        if n['kind'] == 'InitListExpr':
            s.initlist(o, off, t, n); return
        if n['kind'] == 'StringLiteral' and t.k == 'arr':
            b = _str(n['value'])
            s.clear(o, off, t.size)
            for i in range(t.n): o.cells[off+i] = b[i] if i < len(b) else 0
            return
        if n['kind'] == 'CompoundLiteralExpr' and t.k in ('arr', 'rec'):
            s.init(o, off, t, n['inner'][0]); return
        v = s.ev(n)
        s.store(o, off, t, v)
    def zinit(s, o, off, t):
        s.clear(o, off, t.size); o.zr.append((off, off+t.size))
    def initlist(s, o, off, t, n):
        if t.k == 'arr':
            s.zinit(o, off, t)
            ch = n.get('inner')
            if 'array_filler' in n: ch = n['array_filler'][1:]
            for i, c in enumerate(ch or ()):
                if c['kind'] == 'ImplicitValueInitExpr': continue
                s.init(o, off + i*t.to.size, t.to, c)
        elif t.k == 'rec':
            s.zinit(o, off, t)
            if t.rec.union:
                fid = (n.get('field') or {}).get('id')
                fs = s.tu.fieldinfo.get(fid)
                for c in n.get('inner', ()): s.init(o, off, (fs[1] if fs else t.rec.fields[0][2]), c)
                return
            for (nm, fo, ft), c in zip(t.rec.fields, n.get('inner', ())):
                if c['kind'] == 'ImplicitValueInitExpr': continue
                s.init(o, off+fo, ft, c)
        else:
            ch = n.get('inner')
            if not ch: s.zinit(o, off, t)
            elif t.k == 'cpx' and len(ch) == 2:
                s.store(o, off, t, E.add(s.ev(ch[0]), E.mul(E.I, s.ev(ch[1]))))
            else: s.store(o, off, t, s.ev(ch[0]))

    # ------------------------------------------------------------ expressions
    def cond(s, n):
        return s.truth(s.ev(n))
    def truth(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, Ptr): return v.o is not None
        if isinstance(v, Fn): return True
        if isinstance(v, E.Node):
            if E.isbool(v): return s.path.decide(v)
            return not s.path.decide(E.cmp('eq', v, E.ZERO))
        if isinstance(v, Poison): raise UB(v.why)
        raise Unsupported('truth of %r' % (v,))

    def ev(s, n):
        m = EXPR.get(n['kind'])
        if m is None: raise Unsupported('expr ' + n['kind'])
        return m(s, n)

    def lv(s, n):
        """(obj, off, type)"""
        k = n['kind']
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            r = s.fr.get(d['id'])
            if r is not None: return r[0], 0, r[1]
            return s.globalvar(d['name'], d['id'])
        if k == 'ParenExpr' or (k == 'UnaryOperator' and n['opcode'] == '__extension__'): return s.lv(n['inner'][0])
        if k == 'MemberExpr':
            b = n['inner'][0]
            if n.get('isArrow'):
                p = s.ev(b)
                bt = s.ty(b['type']).to
                o, off = p.o, p.off
            else:
                if b.get('valueCategory') == 'lvalue': o, off, bt = s.lv(b)
                else:
                    v = s.ev(b); o, off, bt = v.o, v.off, v.t
            if o is None: raise UB('null pointer member access')
            fo, ft = s.tu.field(n['referencedMemberDecl'], bt)
            return o, s.offadd(off, fo), ft
        if k == 'ArraySubscriptExpr':
            p = s.ev(n['inner'][0]); i = s.ev(n['inner'][1])
            if not isinstance(p, Ptr): p, i = i, p
            t = s.ty(n['type'])
            if p.o is None: raise UB('null pointer indexing')
            return p.o, s.offadd(p.off, s.offmul(i, t.size)), t
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = s.ev(n['inner'][0])
            if isinstance(p, Fn): return p, 0, T('func')
            if not isinstance(p, Ptr) : raise Unsupported('deref %r' % (p,))
            return p.o, p.off, s.ty(n['type'])
        if k == 'UnaryOperator' and n['opcode'] in ('__real', '__imag'):
            o, off, t = s.lv(n['inner'][0])
            h = t.size//2
            return o, off + (h if n['opcode'] == '__imag' else 0), tflt(h)
        if k == 'CompoundLiteralExpr':
            t = s.ty(n['type'])
            o = s.new(t.size, 'lit')
            s.init(o, 0, t, n['inner'][0])
            return o, 0, t
        if k == 'StringLiteral':
            o = s.strobj(n)
            return o, 0, s.ty(n['type'])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n['castKind'] in ('NoOp', 'LValueBitCast'):
            o, off, t = s.lv(n['inner'][0])
            return o, off, s.ty(n['type'])
        if k == 'PredefinedExpr':
            return s.lv(n['inner'][0])
        if k == 'StmtExpr' or n.get('valueCategory') == 'prvalue':
            v = s.ev(n)
            if isinstance(v, SV): return v.o, v.off, v.t
        raise Unsupported('lvalue ' + k)

    def strobj(s, n):
        v = n['value']
        if v not in s.strs:
            b = _str(v) + b'\0'
            o = s.new(len(b), 'str')
            for i, c in enumerate(b): o.cells[i] = c
            s.strs[v] = o
        return s.strs[v]

    def globalvar(s, name, did):
        tu, g = s.prog.find_global(name, s.tu)
        if g is None:
            if name in ('stderr', 'stdout', 'stdin'):
                if name not in s.globals_mem:
                    o = s.new(8, name); o.cells[0] = Ptr(s.new(216, name), 0); s.globals_mem[name] = (o, None)
                o = s.globals_mem[name][0]
                return o, 0, tptr(VOID)
            from . import libc
            if name in libc.GV: return libc.gvar(s, name), 0, libc.GV[name][2]
            raise Unsupported('global ' + name)
        key = (tu.path, name)
        r = s.globals_mem.get(key)
        if r is None:
            t = tu.ty(g['type'])
            o = s.new(t.size, name, True)
            s.globals_mem[key] = r = (o, t)
            if 'init' in g:
                old = s.tu; s.tu = tu
                fr = getattr(s, 'fr', {})
                s.fr = {}
                o.zero = False
                s.init(o, 0, t, [x for x in g['inner'] if not x.get('kind', '').endswith(('Attr','Comment'))][-1])
                s.tu = old; s.fr = fr
        return r[0], 0, r[1]

    def offmul(s, i, sz):
        if isinstance(i, int): return i*sz
        if isinstance(i, Poison): raise UB(i.why)
        return E.mul(E.const(sz), i)
    def offadd(s, a, b):
        if isinstance(a, int) and isinstance(b, int): return a+b
        a = a if isinstance(a, E.Node) else E.const(a)
        b = b if isinstance(b, E.Node) else E.const(b)
        r = E.add(a, b)
        if r.op == 'c': return int(r.data[0])
        return r

    def e_declref(s, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['name'] in s.tu.enums: return s.tu.enums[d['name']]
            raise Unsupported('enum ' + d['name'])
        if d['kind'] == 'FunctionDecl': return Fn(s.tu, d['name'])
        o, off, t = s.lv(n)
        return s.load(o, off, t)
    def e_paren(s, n): return s.ev(n['inner'][0])
    def e_int(s, n): return int(n['value'])
    def e_char(s, n): return int(n['value'])
    def e_float(s, n):
        return literal(n['value'], s.ty(n['type']).size == 4)
    def e_imag(s, n): return E.mul(E.I, s.tonum(s.ev(n['inner'][0])))
    def e_str(s, n): return Ptr(s.strobj(n), 0)
    def e_member(s, n):
        o, off, t = s.lv(n); return s.load(o, off, t)
    def e_stmtexpr(s, n):
        inner = n['inner'][0].get('inner', ())
        v = None
        for i, c in enumerate(inner):
            if i == len(inner)-1 and c.get('kind') in EXPR: v = s.ev(c)
            else: s.stmt(c)
        return v
    def e_cast(s, n):
        ck = n['castKind']; c = n['inner'][0]
        if ck == 'LValueToRValue':
            o, off, t = s.lv(c)
            return s.load(o, off, t)
        if ck == 'ArrayToPointerDecay':
            o, off, t = s.lv(c)
            return Ptr(o, off)
        if ck == 'FunctionToPointerDecay': return s.ev(c)
        if ck in ('NoOp', 'BitCast', 'BuiltinFnToFnPtr', 'CPointerToObjCPointerCast'):
            return s.ev(c)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid': s.ev(c); return None
        v = s.ev(c)
        if isinstance(v, Poison) and not ck.endswith('ToBoolean'): return v
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if isinstance(v, int):
                t = s.ty(n['type'])
                if t.k == 'bool': return 1 if v else 0
                m = 1 << (8*t.size); v &= m-1
                if t.signed and v >= m >> 1: v -= m
            return v
        if ck == 'IntegralToFloating': return s.tonum(v)
        if ck in ('FloatingCast', 'FloatingComplexCast', 'FloatingRealToComplex'): return v
        if ck == 'FloatingComplexToReal': return E.re(v)
        if ck == 'FloatingToIntegral':
            r = E.fn('trunc', v)
            if r.op == 'c': return int(r.data[0])
            r = pit.substitute_map(r, s.path.ctx.subst) if s.path.ctx.subst else r
            if r.op == 'c': return int(r.data[0])
            if s.opts.get('concint'): return s.concretize(r)
            return r
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'FloatingComplexToBoolean'):
            return 1 if s.truth(v) else 0
        if ck in ('IntegralComplexToFloatingComplex', 'IntegralRealToComplex', 'IntegralComplexCast'): return s.tonum(v)
        if ck == 'IntegralToPointer':
            if v == 0: return NULL
        if ck == 'PointerToIntegral':
            if isinstance(v, Ptr) and v.o is None: return 0
        raise Unsupported('cast ' + ck)
    def concretize(s, r):
        """fork over every value of a symbolic integer (candidates from the solver)"""
        for _ in range(s.opts.get('maxint', 40)):
            c = smt.intvalue(s.path, r)
            if c is None: raise Unsupported('cannot enumerate symbolic integer')
            if s.path.decide(E.cmp('eq', r, E.const(c))): return c
        raise Unsupported('too many values of a symbolic integer')
    def tonum(s, v):
        if isinstance(v, E.Node):
            if E.isbool(v): return E.ONE if s.path.decide(v) else E.ZERO
            return v
        if isinstance(v, int): return E.const(v)
        if isinstance(v, Poison): raise UB(v.why)
        raise Unsupported('number from %r' % (v,))
    def e_unary(s, n):
        op = n['opcode']; c = n['inner'][0]
        if op == '&':
            if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] == 'FunctionDecl': return s.ev(c)
            o, off, t = s.lv(c); return Ptr(o, off)
        if op == '*':
            o, off, t = s.lv(n)
            if isinstance(o, Fn): return o
            return s.load(o, off, t)
        if op in ('++', '--'):
            o, off, t = s.lv(c)
            v = s.load(o, off, t)
            if t.k == 'ptr': nv = Ptr(v.o, s.offadd(v.off, t.to.size*(1 if op == '++' else -1)))
            elif isinstance(v, int): nv = v+1 if op == '++' else v-1
            elif isinstance(v, Poison): nv = v
            else: nv = E.add(v, E.ONE if op == '++' else E.MONE)
            s.store(o, off, t, nv)
            return v if n.get('isPostfix') else s.load(o, off, t)
        if op == '__extension__': return s.ev(c)
        v = s.ev(c)
        if isinstance(v, Poison) and op != '!': return v
        if op == '-':
            if isinstance(v, int):
                return s.wrap(-v, s.ty(n['type']))
            return E.neg(v)
        if op == '+': return v
        if op == '!': return 0 if s.truth(v) else 1
        if op == '~':
            if isinstance(v, int):
                if s.ty(n['type']).k == 'cpx': raise Unsupported('~int cpx')
                return s.wrap(~v, s.ty(n['type']))
            return E.conj(v)
        if op == '__real': return E.re(s.tonum(v))
        if op == '__imag': return E.im(s.tonum(v))
        raise Unsupported('unary ' + op)
    def wrap(s, v, t):
        if t.k == 'int':
            m = 1 << (8*t.size); v &= m-1
            if t.signed and v >= m >> 1: v -= m
        return v
    def binop(s, op, a, b, t, lt=None, rt=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.ptrop(op, a, b, t, lt, rt)
        if isinstance(a, Poison) or isinstance(b, Poison):
            p = a if isinstance(a, Poison) else b
            if op in ('<', '>', '<=', '>=', '==', '!='): raise UB(p.why)
            return p
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return int(same) if op == '==' else int(not same)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(a, int) and isinstance(b, int):
                return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
            a, b = s.tonum(a), s.tonum(b)
            if op == '<': c = E.cmp('lt', a, b)
            elif op == '>': c = E.cmp('lt', b, a)
            elif op == '<=': c = E.cmp('le', a, b)
            elif op == '>=': c = E.cmp('le', b, a)
            elif op == '==': return 1 if s.decide_eq(a, b) else 0
            else: return 0 if s.decide_eq(a, b) else 1
            return 1 if s.path.decide(c) else 0
        if isinstance(a, int) and isinstance(b, int) and t.k in ('int', 'bool'):
            if op == '+': r = a+b
            elif op == '-': r = a-b
            elif op == '*': r = a*b
            elif op in ('/', '%'):
                if b == 0: raise UB('integer division by zero')
                q = abs(a)//abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == '/' else a - q*b
            elif op == '&': r = a & b
            elif op == '|': r = a | b
            elif op == '^': r = a ^ b
            elif op == '<<': r = a << b
            elif op == '>>': r = a >> b
            else: raise Unsupported('binop ' + op)
            return s.wrap(r, t)
        isint = t.k in ('int', 'bool')
        a, b = s.tonum(a), s.tonum(b)
        if op == '+': r = E.add(a, b)
        elif op == '-': r = E.sub(a, b)
        elif op == '*': r = E.mul(a, b)
        elif op == '/':
            if isint: r = E.fn('trunc', E.div(a, b))
            else: r = s.fdiv(a, b)
        elif op == '%' and isint:
            r = E.sub(a, E.mul(b, E.fn('trunc', E.div(a, b))))
        elif op == '^' and isint: r = 1 if s.truth(a) != s.truth(b) else 0
        else: raise Unsupported('symbolic binop ' + op)
        if isint and isinstance(r, E.Node) and r.op == 'c': return int(r.data[0])
        return r
    def fdiv(s, a, b):
        if b is E.ZERO: return Poison('division by zero')
        if s.path.ctx.subst:
            # a division whose denominator vanishes on this path is undefined
            try:
                if s.path.ctx.is_zero(b, 1): return Poison('division by expression that is identically zero on this path: %s' % E.show(b, 4))
            except pit.Undecidable: pass
        return E.div(a, b)
    def decide_eq(s, a, b):
        if a.real and b.real: return s.path.decide(E.cmp('eq', a, b))
        return s.path.decide(E.cmp('eq', a, b))
    def ptrop(s, op, a, b, t, lt, rt):
        if op in ('==', '!='):
            def key(p):
                if isinstance(p, Fn): return ('fn', p.name)
                if isinstance(p, int): return (None, 0) if p == 0 else p
                return (p.o.id if p.o else None, p.off)
            ka, kb = key(a), key(b)
            r = ka == kb
            return int(r if op == '==' else not r)
        if op in ('+', '-') and isinstance(a, Ptr) and not isinstance(b, Ptr):
            sz = t.to.size
            k = s.offmul(b, sz)
            if op == '-': k = -k if isinstance(k, int) else E.neg(k)
            return Ptr(a.o, s.offadd(a.off, k))
        if op == '+' and isinstance(b, Ptr): return Ptr(b.o, s.offadd(b.off, s.offmul(a, t.to.size)))
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is not b.o: raise UB('pointer difference')
            d = a.off - b.off
            return d // lt.to.size
        if op in ('<', '>', '<=', '>=') and a.o is b.o:
            x, y = a.off, b.off
            return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        raise Unsupported('pointer op ' + op)
    def e_binary(s, n):
        op = n['opcode']; l, r = n['inner']
        if op == '=':
            t = s.ty(l['type'])
            if t.k in ('rec', 'arr'):
                v = s.ev(r); o, off, t = s.lv(l); s.copyval(o, off, v); return v
            v = s.ev(r)
            o, off, t = s.lv(l)
            s.store(o, off, t, v)
            return v
        if op == '&&': return 1 if (s.cond(l) and s.cond(r)) else 0
        if op == '||': return 1 if (s.cond(l) or s.cond(r)) else 0
        if op == ',': s.ev(l); return s.ev(r)
        a = s.ev(l); b = s.ev(r)
        return s.binop(op, a, b, s.ty(n['type']), s.ty(l['type']), s.ty(r['type']))
    def e_compound(s, n):
        op = n['opcode'][:-1]; l, r = n['inner']
        b = s.ev(r)
        o, off, t = s.lv(l)
        a = s.load(o, off, t)
        ct = s.ty(n['computeLHSType']) if 'computeLHSType' in n else t
        if ct.k in ('flt', 'cpx'):
            a = a if isinstance(a, Poison) else s.tonum(a); b = b if isinstance(b, Poison) else s.tonum(b)
        v = s.binop(op, a, b, s.ty(n['computeResultType']) if 'computeResultType' in n else t, ct, s.ty(r['type']))
        if t.k == 'int' and isinstance(v, E.Node) and ct.k == 'flt':
            v = E.fn('trunc', v)
            if v.op == 'c': v = int(v.data[0])
        s.store(o, off, t, v)
        return v
    def e_conditional(s, n):
        c = n['inner']
        return s.ev(c[1]) if s.cond(c[0]) else s.ev(c[2])
    def e_sizeof(s, n):
        if n['name'] != 'sizeof': raise Unsupported(n['name'])
        if 'argType' in n: return s.ty(n['argType']).size
        c = n['inner'][0]
        t = s.ty(c['type'])
        if t.k == 'arr' and s._vla(t):
            o, off, t = s.lv(c)
        return t.size
    def e_call(s, n):
        f = s.ev(n['inner'][0])
        if isinstance(f, Ptr): raise Unsupported('call through data pointer')
        args = [s.ev(a) for a in n['inner'][1:]] if f.name not in ('__builtin_va_start',) else []
        if f.tu is not None and f.tu is not s.tu and f.name in f.tu.funcs and f.tu.funcs[f.name].get('storageClass') == 'static' and f.name not in s.replace:
            return s.call_fd(f.tu, f.tu.funcs[f.name], args)
        return s.call(f.name, args, n)
    def e_constexpr(s, n): return s.ev(n['inner'][0])
    def e_initlist(s, n):
        t = s.ty(n['type'])
        o = s.new(t.size, 'init'); s.initlist(o, 0, t, n)
        if t.k in ('arr', 'rec'): return SV(o, 0, t)
        return s.load(o, 0, t)
    def e_implicit(s, n):
        t = s.ty(n['type'])
        if t.k in ('rec', 'arr'):
            return SV(s.new(t.size, 'zero', True), 0, t)
        return s.zero_of(t)
    def e_complit(s, n):
        o, off, t = s.lv(n)
        return s.load(o, off, t)
    def e_vaarg(s, n): raise Unsupported('va_arg')
    def e_offsetof(s, n): raise Unsupported('offsetof')
    def e_choose(s, n): return s.ev(n['inner'][1])

def _str(v):
    body = v[v.index('"')+1:-1]
    out = bytearray(); i = 0
    bs = body.encode('utf-8')
    while i < len(bs):
        c = bs[i]
        if c == 0x5c:
            d = chr(bs[i+1])
            mp = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
            if d == 'x':
                m = re.match(rb'[0-9a-fA-F]+', bs[i+2:]); out.append(int(m.group(0), 16) & 255); i += 2+len(m.group(0)); continue
            if d in '01234567':
                m = re.match(rb'[0-7]{1,3}', bs[i+1:]); out.append(int(m.group(0), 8)); i += 1+len(m.group(0)); continue
            out.append(mp.get(d, bs[i+1])); i += 2
        else: out.append(c); i += 1
    return bytes(out)

STMT = {'CompoundStmt': Interp.st_compound, 'LabelStmt': Interp.st_label, 'GotoStmt': Interp.st_goto, 'DeclStmt': Interp.st_decl,
        'ReturnStmt': Interp.st_return, 'IfStmt': Interp.st_if, 'ForStmt': Interp.st_for, 'WhileStmt': Interp.st_while,
        'DoStmt': Interp.st_do, 'BreakStmt': Interp.st_break, 'ContinueStmt': Interp.st_cont, 'NullStmt': Interp.st_null,
        'SwitchStmt': Interp.st_switch}
EXPR = {'DeclRefExpr': Interp.e_declref, 'ParenExpr': Interp.e_paren, 'IntegerLiteral': Interp.e_int, 'CharacterLiteral': Interp.e_char,
        'FloatingLiteral': Interp.e_float, 'ImaginaryLiteral': Interp.e_imag, 'StringLiteral': Interp.e_str, 'MemberExpr': Interp.e_member,
        'ArraySubscriptExpr': Interp.e_member, 'StmtExpr': Interp.e_stmtexpr, 'ImplicitCastExpr': Interp.e_cast, 'CStyleCastExpr': Interp.e_cast,
        'UnaryOperator': Interp.e_unary, 'BinaryOperator': Interp.e_binary, 'CompoundAssignOperator': Interp.e_compound,
        'ConditionalOperator': Interp.e_conditional, 'UnaryExprOrTypeTraitExpr': Interp.e_sizeof, 'CallExpr': Interp.e_call,
        'ConstantExpr': Interp.e_constexpr, 'InitListExpr': Interp.e_initlist, 'ImplicitValueInitExpr': Interp.e_implicit,
        'CompoundLiteralExpr': Interp.e_complit, 'VAArgExpr': Interp.e_vaarg, 'PredefinedExpr': Interp.e_member,
        'ChooseExpr': Interp.e_choose}
