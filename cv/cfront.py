"""C front end: clang's own AST (JSON) of the current sources."""
import json, os, re, subprocess, hashlib, pickle, sys

REPO = os.environ.get('CV_REPO', '/repo')
CEXT = os.path.join(REPO, 'pygrt', 'C_extension')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CFLAGS = ['-std=gnu99', '-D_GNU_SOURCE', '-D_OPENMP=201511', '-DGRT_VERSION="v"', '-DGRT_DATE="d"',
          '-I' + os.path.join(CEXT, 'include'), '-I' + CEXT, '-I' + os.path.join(VERIF, 'contracts')]

class FrontError(Exception): pass

# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'size', 'signed', 'to', 'n', 'rec', 'ret', 'align')
    def __init__(s, k, **kw):
        s.k = k; s.size = 0; s.signed = True; s.to = None; s.n = None; s.rec = None; s.ret = None; s.align = 1
        for a, v in kw.items(): setattr(s, a, v)
    def __repr__(s):
        if s.k == 'ptr': return repr(s.to) + '*'
        if s.k == 'arr': return '%r[%s]' % (s.to, s.n)
        return s.k + str(s.size)

VOID = T('void', size=1)
def tint(sz, sg=True): return T('int', size=sz, signed=sg, align=sz)
def tflt(sz): return T('flt', size=sz, align=sz if sz <= 8 else 16)
def tcpx(sz): return T('cpx', size=sz, align=sz//2)
def tptr(t): return T('ptr', size=8, to=t, align=8)
def tarr(t, n): return T('arr', to=t, n=n, size=(t.size*n if n is not None else 0), align=t.align)

BASE = {
 'void': VOID, 'bool': T('bool', size=1, signed=False), '_Bool': T('bool', size=1, signed=False),
 'char': tint(1), 'signed char': tint(1), 'unsigned char': tint(1, False),
 'short': tint(2), 'unsigned short': tint(2, False), 'int': tint(4), 'unsigned int': tint(4, False), 'unsigned': tint(4, False),
 'long': tint(8), 'unsigned long': tint(8, False), 'long long': tint(8), 'unsigned long long': tint(8, False),
 'float': tflt(4), 'double': tflt(8), 'long double': tflt(16), '__int128': tint(16), 'unsigned __int128': tint(16, False),
 '_Complex float': tcpx(8), '_Complex double': tcpx(16), '_Complex long double': tcpx(32),
 '__builtin_va_list': T('va', size=24, align=8), 'struct __va_list_tag': T('va', size=24, align=8), '__va_list_tag': T('va', size=24, align=8),
 'size_t': tint(8, False),
}

class Rec:
    def __init__(s): s.fields = []; s.size = 0; s.align = 1; s.byid = {}; s.union = False; s.done = False; s.node = None

class TU:
    def __init__(s, path):
        s.path = path
        s.funcs = {}      # name -> decl with body
        s.fdecl = {}      # name -> any decl
        s.globals = {}    # name -> VarDecl
        s.byid = {}       # id -> decl node
        s.typedefs = {}
        s.recs = {}       # tag -> Rec ; loc-string -> Rec ; id -> Rec
        s.enums = {}      # const name -> int
        s.tcache = {}
        s.fieldinfo = {}  # field id -> (offset, T)

    def load(s, extra=()):
        cmd = ['clang', '-I' + os.path.join(VERIF, 'cv', 'inc')] + CFLAGS + list(extra) + ['-w', '-Xclang', '-ast-dump=json', '-fsyntax-only', s.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if p.returncode != 0:
            raise FrontError('clang failed on %s: %s' % (s.path, p.stderr.decode()[:2000]))
        d = json.loads(p.stdout)
        s._locs(d)
        s._index(d)
        return s

    def _locs(s, d):
        """resolve clang's elided file/line and attach '_line' and '_locstr' to records"""
        cur = ['', 0]
        def upd(l):
            if not l: return
            if 'spellingLoc' in l or 'expansionLoc' in l:
                upd(l.get('spellingLoc')); upd(l.get('expansionLoc')); return
            if 'file' in l: cur[0] = l['file']
            if 'line' in l: cur[1] = l['line']
        def rec(n):
            l = n.get('loc')
            if l is not None:
                upd(l)
                k = n.get('kind')
                if k in ('RecordDecl', 'FunctionDecl'):
                    ll = l.get('expansionLoc', l)
                    n['_file'] = cur[0]; n['_line'] = cur[1]
                    n['_locstr'] = '%s:%s:%s' % (cur[0], cur[1], ll.get('col', 0))
            r = n.get('range')
            if r:
                upd(r.get('begin')); 
                n['_l'] = cur[1]
                upd(r.get('end'))
                del n['range']
            for key in ('inner', 'array_filler'):
                for c in n.get(key, ()):
                    if c: rec(c)
        sys.setrecursionlimit(20000)
        rec(d)

    def _index(s, d):
        for n in d['inner']: s._decl(n)

    def _decl(s, n):
        k = n.get('kind'); i = n.get('id')
        if k == 'FunctionDecl':
            nm = n.get('name')
            s.byid[i] = n
            body = any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ()))
            if body:
                if nm in s.funcs and nm.startswith('__tg_'): pass
                else: s.funcs[nm] = n
            s.fdecl.setdefault(nm, n)
        elif k == 'VarDecl':
            s.byid[i] = n
            nm = n.get('name')
            if nm not in s.globals or 'init' in n or s.globals[nm].get('storageClass') == 'extern':
                if not ('init' not in n and nm in s.globals and 'init' in s.globals[nm]):
                    s.globals[nm] = n
        elif k == 'TypedefDecl':
            s.typedefs[n['name']] = n
        elif k == 'RecordDecl':
            s._record(n)
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', ()):
                if c.get('kind') != 'EnumConstantDecl': continue
                v += 1
                for e in c.get('inner', ()):
                    x = _constval(e, s)
                    if x is not None: v = x
                s.enums[c['name']] = v
                c['_v'] = v

    def _record(s, n):
        r = Rec(); r.node = n; r.union = n.get('tagUsed') == 'union'
        complete = n.get('completeDefinition')
        for c in n.get('inner', ()):
            if c.get('kind') == 'RecordDecl': s._record(c)
            elif c.get('kind') == 'EnumDecl': s._decl(c)
        s.recs[n['id']] = r
        if '_locstr' in n: s.recs.setdefault(n['_locstr'], r)
        if complete and n.get('name'): s.recs['struct ' + n['name']] = r; s.recs['union ' + n['name']] = r
        return r

    def layout(s, r):
        if r.done: return r
        r.done = True
        off = 0; al = 1
        for c in r.node.get('inner', ()):
            if c.get('kind') != 'FieldDecl': continue
            t = s.ty(c['type'])
            a = max(1, t.align)
            if r.union: o = 0; r.size = max(r.size, t.size)
            else:
                off = (off + a - 1)//a*a; o = off; off += t.size
            al = max(al, a)
            r.fields.append((c.get('name'), o, t)); s.fieldinfo[c['id']] = (o, t)
        if not r.union: r.size = off
        r.size = (r.size + al - 1)//al*al
        r.align = al
        return r

    def field(s, fid, rect):
        if fid not in s.fieldinfo: s.layout(rect.rec)
        return s.fieldinfo[fid]

    # ---- type parsing
    def ty(s, td):
        q = td.get('desugaredQualType') or td['qualType']
        try: return s.tys(q)
        except FrontError:
            return s.tys(td['qualType'])

    def tys(s, q):
        t = s.tcache.get(q)
        if t is None:
            t = s._parse(q)
            s.tcache[q] = t
        return t

    def _parse(s, q):
        q0 = q
        q = re.sub(r'\b(const|volatile|restrict|__restrict|_Nonnull|_Nullable|__attribute__\(\([^)]*\)\)|register|static)\b', ' ', q)
        m = re.search(r'(struct|union|enum)?\s*[\w:]*\(unnamed[^)]*?(?: at ([^)]+))\)', q)
        if not m: m = re.search(r'(struct|union|enum)\s+\(anonymous[^)]*?(?: at ([^)]+))\)', q)
        if m:
            loc = m.group(2)
            if m.group(1) == 'enum' or 'unnamed enum' in m.group(0): base = tint(4, False)
            else:
                r = s.recs.get(loc)
                if r is None:
                    for k2, v in s.recs.items():
                        if isinstance(k2, str) and k2.endswith(loc.split('/')[-1]): r = v
                if r is None: raise FrontError('anonymous record ' + q0)
                s.layout(r)
                base = T('rec', rec=r, size=r.size, align=r.align)
            rest = q[m.end():]
        else:
            m = re.match(r'\s*((?:struct|union|enum)\s+\w+|[\w ]+?)\s*(?=$|[*(\[])', q)
            if not m: raise FrontError('type ' + q0)
            nm = ' '.join(m.group(1).split())
            base = s._base(nm)
            rest = q[m.end():]
        return s._declarator(base, rest.strip())

    def _base(s, nm):
        if nm in BASE: return BASE[nm]
        if nm.startswith('enum '): return tint(4, False)
        if nm.startswith('struct ') or nm.startswith('union '):
            r = s.recs.get(nm)
            if r is None: return T('opaque', size=1)
            s.layout(r)
            return T('rec', rec=r, size=r.size, align=r.align)
        td = s.typedefs.get(nm)
        if td is not None:
            t = td['type']
            q = t.get('desugaredQualType') or t['qualType']
            if q == nm or q == 'struct ' + nm or q == 'enum ' + nm: q = t['qualType']
            # typedef struct {...} NAME: find owned tag
            if q == nm or ' ' + nm == q[-len(nm)-1:] and (q.startswith('struct') or q.startswith('enum')) :
                r = s.recs.get('struct ' + nm)
                if r is None:
                    rid = _find_owned(td)
                    r = s.recs.get(rid)
                    if r is None: return tint(4, False)
                s.layout(r)
                return T('rec', rec=r, size=r.size, align=r.align)
            return s.tys(q)
        w = sorted(nm.split())
        for b in BASE:
            if sorted(b.split()) == w: return BASE[b]
        if '_Complex' in nm.split():
            rest = ' '.join(x for x in nm.split() if x != '_Complex')
            if rest in s.typedefs or rest in BASE:
                b = s._base(rest)
                nm2 = {4: 'float', 8: 'double', 16: 'long double'}.get(b.size)
                return s._base('_Complex ' + nm2)
        raise FrontError('unknown type ' + nm)

    def _declarator(s, base, rest):
        rest = rest.strip()
        # leading '*'
        while rest.startswith('*'):
            base = tptr(base); rest = rest[1:].strip()
        if not rest: return base
        if rest.startswith('('):
            # find matching paren
            d = 0
            for j, ch in enumerate(rest):
                if ch == '(': d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0: break
            inner = rest[1:j].strip(); after = rest[j+1:].strip()
            if inner.startswith('*') or inner.startswith('('):
                b2 = s._suffix(base, after)
                return s._declarator(b2, inner)
            # function type
            ft = T('func', ret=base, size=1)
            return ft
        return s._suffix(base, rest)

    def _suffix(s, base, rest):
        rest = rest.strip()
        if not rest: return base
        if rest.startswith('('):
            return T('func', ret=base, size=1)
        dims = []
        while rest.startswith('['):
            j = rest.index(']')
            x = rest[1:j].strip()
            dims.append(int(x) if x.isdigit() else (x or None))
            rest = rest[j+1:].strip()
        for n in reversed(dims):
            base = T('arr', to=base, n=n, size=(base.size*n if isinstance(n, int) else 0), align=base.align)
        return base

def _find_owned(td):
    st = list(td.get('inner', ()))
    while st:
        x = st.pop()
        if 'ownedTagDecl' in x: return x['ownedTagDecl']['id']
        if x.get('kind') == 'RecordType' and 'decl' in x: return x['decl']['id']
        st.extend(x.get('inner', ()))

def _constval(e, tu):
    k = e.get('kind')
    if 'value' in e and k in ('ConstantExpr', 'IntegerLiteral'):
        try: return int(e['value'])
        except ValueError: pass
    if k == 'UnaryOperator' and e.get('opcode') == '-':
        v = _constval(e['inner'][0], tu); return None if v is None else -v
    if k == 'DeclRefExpr': return tu.enums.get(e['referencedDecl']['name'])
    if k == 'BinaryOperator':
        a = _constval(e['inner'][0], tu); b = _constval(e['inner'][1], tu)
        if a is None or b is None: return None
        return {'+': a+b, '-': a-b, '*': a*b, '<<': a << b if b >= 0 else 0, '|': a | b}.get(e['opcode'])
    for c in e.get('inner', ()):
        v = _constval(c, tu)
        if v is not None: return v
    return None

_gi = []
def _gccinc():
    if not _gi:
        p = subprocess.run(['gcc', '-print-file-name=include'], stdout=subprocess.PIPE)
        _gi.append(p.stdout.decode().strip())
    return _gi[0]

def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(CEXT, 'src')):
        for f in files:
            if f.endswith('.c'): out.append(os.path.join(root, f))
    return sorted(out)

class Program:
    def __init__(s, main):
        s.main = TU(main).load()
        s.tus = [s.main]
        s.loaded = {}
        s.texts = None
    def find_func(s, name, tu):
        """(tu, decl) for a function definition"""
        if name in tu.funcs: return tu, tu.funcs[name]
        for t in s.tus:
            if name in t.funcs and t.funcs[name].get('storageClass') != 'static': return t, t.funcs[name]
        if s.texts is None:
            s.texts = {p: open(p, errors='replace').read() for p in sources()}
            # template includes
            for p in list(s.texts):
                for inc in re.findall(r'#include\s+"([\w./]+\.c_)"', s.texts[p]):
                    q = os.path.join(os.path.dirname(p), inc)
                    if os.path.exists(q): s.texts[p] += open(q, errors='replace').read()
        pat = re.compile(r'\b' + re.escape(name) + r'\s*\(')
        short = re.sub(r'^grt_(static_)?', '', name)
        cand = [p for p, t in s.texts.items() if p not in s.loaded and pat.search(t)]
        cand2 = [p for p, t in s.texts.items() if p not in s.loaded and p not in cand and short in t]
        # prefer files where it looks like a definition
        dpat = re.compile(r'^[\w][\w\s\*\(]*\b' + re.escape(name) + r'\s*\(', re.M)
        cand.sort(key=lambda p: 0 if dpat.search(s.texts[p]) else 1)
        cand3 = [p for p, t in s.texts.items() if p not in s.loaded and p not in cand and p not in cand2 and '##' in t and name.startswith('grt_')]
        for p in cand + cand2 + cand3:
            t = s.load(p)
            if name in t.funcs and t.funcs[name].get('storageClass') != 'static': return t, t.funcs[name]
        return None, None
    def load(s, p):
        if p in s.loaded: return s.loaded[p]
        t = TU(p).load(); s.loaded[p] = t; s.tus.append(t)
        return t
    def find_global(s, name, tu):
        def ok(t):
            g = t.globals.get(name)
            return g is not None and g.get('storageClass') != 'extern'
        if ok(tu): return tu, tu.globals[name]
        for t in s.tus:
            if ok(t) and t.globals[name].get('storageClass') != 'static': return t, t.globals[name]
        if s.texts is None: s.find_func('\x00none', tu)
        pat = re.compile(r'\b' + re.escape(name) + r'\b[^;()]*=', re.M)
        for p, tx in s.texts.items():
            if p in s.loaded or not pat.search(tx): continue
            t = s.load(p)
            if ok(t) and t.globals[name].get('storageClass') != 'static': return t, t.globals[name]
        return None, None
