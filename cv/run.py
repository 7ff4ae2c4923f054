#!/usr/bin/env python3-vt
"""Driver.  usage: run.py check <PROPERTY> [--tier quick|thorough]
           run.py one <file.c> [harness...]       (development)
           run.py replay <replay.json>"""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing as mp, signal, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from cv import cfront, props
REPO = cfront.REPO; CEXT = cfront.CEXT

def wraps(txt):
    """functions replaced by their contract in the whole file, natively too (/*@cvfile wrap=f,g */)"""
    m = re.search(r'/\*@cvfile\s+wrap=(\S+)', txt)
    return m.group(1).split(',') if m else []
def harnesses(path):
    """[(name, opts)]; opts from the /*@cv ...*/ comment before the function"""
    txt = open(path).read()
    out = []; w = wraps(txt)
    for m in re.finditer(r'(?:/\*@cv(.*?)\*/\s*)?^void\s+(H_\w+)\s*\(\s*void\s*\)\s*\{', txt, re.M | re.S):
        o = {}
        for kv in (m.group(1) or '').split():
            k, _, v = kv.partition('='); o[k] = v or '1'
        if w: o['replace'] = ','.join(w + ([o['replace']] if 'replace' in o else []))
        out.append((m.group(2), o))
    return out

# ---------------------------------------------------------------- symbolic worker
def work(path, name, opts, tier, seed, q, tlimit, beat=None, zseed=1):
    try:
        from cv import smt as _smt
        _smt.BEAT = beat; _smt.ZSEED = zseed
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(100000)
        import threading
        threading.stack_size(512*1024*1024)
        box = {}
        th = threading.Thread(target=lambda: box.update(r=_work(path, name, opts, tier, seed, tlimit)))
        th.start(); th.join()
        q.put(box.get('r', dict(name=name, error='worker died')))
    except Exception as e:
        q.put(dict(name=name, error='%s: %s' % (type(e).__name__, e)))

def _work(path, name, opts, tier, seed, tlimit):
    from cv import interp, smt, numev, pit
    t0 = time.time()
    r = dict(name=name, file=os.path.basename(path), error=None)
    it = None
    try:
        prog = cfront.Program(path)
        r['parse_s'] = time.time()-t0
        o = dict(seed=int(seed), tier=tier)
        if 'replace' in opts: o['replace'] = dict((x, 'contract__' + x) for x in opts['replace'].split(','))
        if 'loopdec' in opts: o['loopdec'] = int(opts['loopdec'])
        if 'concint' in opts: o['concint'] = 1
        if 'tq' in opts: smt.T_QUICK = int(opts['tq'])
        if 'nosmt' in opts: smt.MAXNODES = 0
        it = interp.Interp(prog, o)
        res = it.explore(name, maxpaths=int(opts.get('maxpaths', 20000)), tlimit=tlimit)
        ob = {}
        cands = []
        for x in res['obls']:
            d = ob.setdefault(x.name, dict(proved=0, failed=0, unknown=0, backends={}, info=''))
            d[x.status] += 1
            if x.status == 'proved': d['backends'][x.backend or 'path'] = d['backends'].get(x.backend or 'path', 0)+1
            elif not d['info']: d['info'] = (x.info + ' | path: ' + '; '.join(('' if t else 'not ') + __import__('cv.expr').expr.show(f, 3) for f, t in (x.path or {}).get('facts', [])[:12]) + ' ' + ' '.join((x.path or {}).get('tags', [])))[:1500]
            if x.status == 'failed' and x.path and len(cands) < 40:
                m = x.path.get('model') or smt.model(_P(x.path))
                cands += numev.candidates(x.path, 8, 1, m, 3)
        r.update(obls=ob, cands=cands, paths=res['paths'], completed=res['completed'], infeasible=res['infeasible'], unknown=res['unknown'])
    except (interp.Unsupported, cfront.FrontError, pit.Undecidable, NotImplementedError, MemoryError, RecursionError, subprocess.TimeoutExpired) as e:
        r['error'] = '%s: %s' % (type(e).__name__, str(e)[:600])
    except Exception as e:
        r['error'] = 'internal %s: %s' % (type(e).__name__, str(e)[:300]); r['tb'] = traceback.format_exc()[-3000:]
    if it is not None:
        r['functions'] = sorted(x for x in it.called if not x.startswith('H_') and not x.startswith('contract__'))
        r['by_contract'] = sorted(it.by_contract)
        r['bounded'] = getattr(it, 'bounded', {})
    r['smt'] = dict(smt.STATS)
    r['time'] = time.time()-t0
    return r

class _P:
    def __init__(s, snap): s.facts = snap['facts']; s.key = ()

def run_symbolic(jobs, tier, seed, tlimit, ncpu=8):
    """jobs: [(path,name,opts)].  A worker whose solver call does not return (far beyond its own time limit) is restarted with another solver seed."""
    ctx = mp.get_context('fork')
    res = {}; pend = [(p, n, o, 1) for p, n, o in jobs]; live = []
    while pend or live:
        while pend and len(live) < ncpu:
            path, name, opts, zs = pend.pop(0)
            q = ctx.Queue(); beat = ctx.Value('d', 0.0, lock=False)
            tl = float(opts.get('tlimit', tlimit)) * (3 if tier == 'thorough' else 1)
            p = ctx.Process(target=work, args=(path, name, opts, tier, seed, q, tl, beat, zs)); p.start()
            live.append((p, q, path, name, time.time(), tl, opts, beat, zs))
        time.sleep(0.02)
        nl = []
        for x in live:
            p, q, path, name, t, tl, opts, beat, zs = x
            got = None; now = time.time()
            try: got = q.get_nowait()
            except Exception: pass
            if got is None and not p.is_alive():
                try: got = q.get(timeout=0.5)
                except Exception: got = dict(name=name, error='worker ended without result (memory?)')
            if got is None and beat.value and now-beat.value > 45 and zs < 3:
                p.kill(); p.join(timeout=5); pend.append((path, name, opts, zs+1)); continue
            if got is None and now-t > tl*1.3+30:
                p.kill(); got = dict(name=name, error='timeout')
            if got is None: nl.append(x); continue
            got['file'] = os.path.basename(path)
            p.join(timeout=5)
            if p.is_alive(): p.kill()
            res[(path, name)] = got
        live = nl
    return res

# ---------------------------------------------------------------- replay build
class Native:
    def __init__(s):
        s.dir = tempfile.mkdtemp(prefix='cvnat_')
        s.objs = None; s.bins = {}; s.err = None
    FL = ['-O1', '-fopenmp', '-g0', '-w', '-std=gnu99', '-D_GNU_SOURCE', '-DGRT_VERSION="v"', '-DGRT_DATE="d"', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-stack-protector', '-ffunction-sections']
    def lib(s):
        if s.objs is not None: return
        s.objs = []
        srcs = cfront.sources()
        procs = []
        for p in srcs:
            o = os.path.join(s.dir, hashlib.md5(p.encode()).hexdigest()[:12] + '.o')
            procs.append((p, o))
        def go(po):
            r = subprocess.run(['gcc'] + s.FL + ['-I' + os.path.join(CEXT, 'include'), '-I' + CEXT, '-c', po[0], '-o', po[1], '-Dmain=cv_main_'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return po, r.returncode, r.stderr.decode()[-500:]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for po, rc, e in ex.map(go, procs):
                if rc == 0: s.objs.append(po[1])
                else: s.err = (s.err or '') + po[0] + ': ' + e
    def build(s, path):
        if path in s.bins: return s.bins[path]
        s.lib()
        b = os.path.join(s.dir, os.path.basename(path) + '.bin')
        tab = os.path.join(s.dir, os.path.basename(path) + '.tab.c')
        hs = [h for h, _ in harnesses(path)]
        with open(tab, 'w') as f:
            for h in hs: f.write('void %s(void);\n' % h)
            f.write('struct hent{const char*n;void(*f)(void);};\nstruct hent cv_table[]={%s{0,0}};\n' % ''.join('{"%s",%s},' % (h, h) for h in hs))
        ho = b + '.o'
        r = subprocess.run(['gcc'] + s.FL + ['-I' + os.path.join(CEXT, 'include'), '-I' + CEXT, '-I' + os.path.join(VERIF, 'contracts'), '-Dmain=cv_main_', '-c', path, '-o', ho], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode == 0:
            r = subprocess.run(['gcc', '-fsanitize=address', '-Wl,--allow-multiple-definition', '-Wl,--wrap=exit'] + ['-Wl,--wrap=%s,--defsym=__wrap_%s=contract__%s' % (w, w, w) for w in wraps(open(path).read())] + ['-o', b, ho, tab, '-x', 'c', '-w', os.path.join(HERE, 'cv_rt.c'), '-x', 'none'] + s.objs + ['-lfftw3', '-lfftw3f', '-lnetcdf', '-lm', '-fopenmp'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            s.err = (s.err or '') + r.stderr.decode()[-1500:]; b = None
        s.bins[path] = b
        return b
    def run(s, path, name, n, seed, tier, cands=None, tmo=120):
        b = s.build(path)
        if b is None: return None
        cmd = [b, name, str(n), str(seed), '1' if tier == 'thorough' else '0']
        if cands is not None:
            f = os.path.join(s.dir, 'cand.txt')
            with open(f, 'w') as g:
                for c in cands: g.write(' '.join('%s=%.17g,%.17g' % (k, v[0], v[1]) for k, v in c.items()) + '\n')
            cmd.append(f)
        env = dict(os.environ, OMP_NUM_THREADS='1')
        sc = tempfile.mkdtemp(prefix='cvrun_', dir=s.dir)
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo, env=env, cwd=sc)
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace'); rc = -1
        else: out = p.stdout.decode(errors='replace'); rc = p.returncode
        fails = []
        summ = None
        for l in out.splitlines():
            try:
                if l.startswith('FAIL '): fails.append(json.loads(l[5:].replace(':nan', ':NaN').replace('-nan', 'NaN').replace('[nan', '[NaN').replace(',nan', ',NaN').replace('-inf', '-Infinity').replace('inf', 'Infinity').replace('-IInfinity', '-Infinity')))
                elif l.startswith('SUMMARY '): summ = json.loads(l[8:])
            except ValueError: fails.append(dict(raw=l)) if l.startswith('FAIL') else None
        return dict(fails=fails, summary=summ, rc=rc)
    def close(s): shutil.rmtree(s.dir, ignore_errors=True)

# ---------------------------------------------------------------- check
def classify(r):
    if r.get('error'): return 'undecided', r['error']
    obs = r['obls']
    bad = [k for k, d in obs.items() if d['failed']]
    if bad: return 'failed', ', '.join(bad)
    if r['unknown']: return 'undecided', r['unknown']
    unk = [k for k, d in obs.items() if d['unknown']]
    if unk: return 'undecided', 'undecided obligations: ' + ', '.join(unk) + ' :: ' + obs[unk[0]]['info'][:300]
    if sum(d['proved'] for d in obs.values()) == 0: return 'failed', 'vacuous: no obligation reached'
    return 'proved', ''

def check(pid, tier, seed):
    t0 = time.time()
    P = props.PROPS[pid]
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    jobs = []
    for f in P['files']:
        path = os.path.join(VERIF, 'contracts', f)
        for h, o in harnesses(path):
            if 'prop' in o and pid not in o['prop'].split(','): continue
            if 'thorough' in o and tier != 'thorough': continue
            jobs.append((path, h, o))
    jobs.sort(key=lambda j: -float(j[2].get('cost', 1)))
    budget = P.get('tlimit', 150)
    # sampled=1: outside the verifier's reach, executed on samples only (a bounded check, no obligation counted)
    res = run_symbolic([j for j in jobs if 'sampled' not in j[2]], tier, seed, budget)
    for j in jobs:
        if 'sampled' in j[2]: res[(j[0], j[1])] = dict(name=j[1], error='executed on samples only')
    nat = Native(); viol = []; known = []; per = []; nprov = nobl = bprov = bobl = 0; undec = []
    kf = load_known(pid)
    backends = {}; funcs = set(); bycon = set(); stime = 0.0; zt = 0.0; bounds = {}
    try:
        for path, h, o in jobs:
            r = res[(path, h)]
            st, why = classify(r)
            funcs |= set(r.get('functions', ())); bycon |= set(r.get('by_contract', ()))
            stime += r.get('time', 0); zt += r.get('smt', {}).get('time', 0)
            for b, v in (r.get('bounded') or {}).items(): bounds['%s.%s' % (h, b)] = v
            np_ = sum(d['proved'] for d in (r.get('obls') or {}).values()); nt = sum(d['proved']+d['failed']+d['unknown'] for d in (r.get('obls') or {}).values())
            bnd = bool(r.get('bounded')) or 'bounded' in o
            if 'sampled' in o: pass
            elif bnd: bobl += max(nt, 1); bprov += np_
            else: nobl += max(nt, 1); nprov += np_
            for d in (r.get('obls') or {}).values():
                for b, c in d['backends'].items(): backends[b] = backends.get(b, 0)+c
            e = dict(harness=h, file=os.path.basename(path), status=('bounded-proved' if bnd else 'proved') if st == 'proved' else st, bound=dict(r.get('bounded') or {}) if bnd else None, reason=why[:400], paths=r.get('paths'), obligations=nt, proved=np_, seconds=round(r.get('time', 0), 2),
                     names=sorted((r.get('obls') or {}).keys())[:60])
            if r.get('tb'): e['traceback'] = r['tb'][-800:]
            n = int(o.get('samples', 300)) * (5 if tier == 'thorough' else 1)
            if st == 'failed':
                # replay the verifier's counterexample (path model) on the compiled code
                rp = None
                if r.get('cands'): rp = nat.run(path, h, 0, seed, tier, r['cands'])
                if not (rp and rp['fails']):
                    rp2 = nat.run(path, h, n, seed, tier)
                    if rp2 and (rp2['fails'] or not rp): rp = rp2
                k = match_known(kf, h, r, rp)
                if k: known.append((k, h)); e['status'] = 'known-finding'
                else: viol.append((h, path, r, rp, why))
                e['replay'] = rp
            elif st == 'undecided' or 'native' in o or tier == 'thorough' and 'noconc' not in o:
                rp = nat.run(path, h, n, seed, tier)
                e['bounded_check'] = (rp or {}).get('summary') if rp else 'not buildable: ' + (nat.err or '')[-300:]
                if 'sampled' in o: e['status'] = 'sampled'
                elif st == 'undecided': undec.append(h)
                if rp and rp['fails']:
                    k = match_known(kf, h, r, rp)
                    if k: known.append((k, h))
                    else: viol.append((h, path, r, rp, 'bounded execution: ' + str(why)))
                    e['replay'] = rp
            per.append(e)
        # extra deciders (text/structure level obligations over Python sources)
        vlines = []
        seen = set()
        for k, h in known:
            if k['what'] in seen: continue
            seen.add(k['what']); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        for h, path, r, rp, why in viol:
            fn = os.path.join(ev, 'replay', '%s_%s.json' % (pid, h))
            json.dump(dict(property=pid, harness=h, file=os.path.basename(path), obligation=why, verifier=dict((k, v) for k, v in (r.get('obls') or {}).items() if v['failed'] or v['unknown']),
                           error=r.get('error'), candidates=(r.get('cands') or [])[:3], native=rp, how='python3-vt /verif/cv/run.py replay ' + fn), open(fn, 'w'), indent=1, default=str)
            tail = '' if rp and rp['fails'] else ' no-failing-input-found'
            print('failed obligation(s) in %s: %s' % (h, why[:500]))
            print('VIOLATION property=%s replay=%s%s' % (pid, fn, tail))
    finally: nat.close()
    lvl = P.get('level', 'proof')
    wall = time.time()-t0
    allp = all(e['status'] in ('proved', 'bounded-proved') for e in per)
    json.dump(dict(property=pid, tier=tier, seed=int(seed), level=lvl, wall_s=round(wall, 2), violations=len(viol),
        assumptions=props.COMMON + P.get('assumptions', []),
        coverage=dict(obligations=nobl, discharged=nprov, bounded_obligations=bobl, bounded_discharged=bprov, bounded_note='obligations of harnesses whose array or model sizes are bounded or which enumerate listed cases; every other quantity symbolic; never counted as proved', checker_cmd='python3-vt /verif/cv/run.py check %s --tier %s' % (pid, tier),
            trusted_base=props.TRUSTED, functions_under_contract=sorted(funcs), callees_by_contract=sorted(bycon), backends=backends, solver_seconds=round(stime, 2), z3_seconds=round(zt, 2),
            harnesses=per, undecided=undec, bounded_sizes=bounds, proved_harnesses=sum(e['status'] == 'proved' for e in per), bounded_harnesses=sum(e['status'] == 'bounded-proved' for e in per), total_harnesses=len(per),
            result='all obligations discharged' if allp else 'see harnesses')),
        open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    for e in per:
        print('%-14s %-34s obl %d/%d paths %s %.1fs %s' % (e['status'], e['harness'], e['proved'], e['obligations'], e['paths'], e['seconds'], e['reason'][:160]))
    print('%s %s: %d/%d obligations discharged (+ %d/%d bounded), %d undecided harnesses, %d violations, %.1fs' % (pid, tier, nprov, nobl, bprov, bobl, len(undec), len(viol), wall))
    return 1 if viol else 0

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]

def match_known(kf, h, r, rp):
    """a finding lists harness and the exact set of obligations that may fail"""
    for k in kf:
        if k['harness'] != h: continue
        bad = set(n for n, d in (r.get('obls') or {}).items() if d['failed'])
        nb = set(f.get('obligation') for f in (rp or {}).get('fails', ()))
        if (bad | nb) <= set(k['obligations']): return k
    return None

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = os.environ.get('VERIF_SEED', '1')
    if '--tier' in a: i = a.index('--tier'); tier = a[i+1]; del a[i:i+2]
    if a[0] == 'setup': print('ok'); sys.exit(0)
    if a[0] == 'check': sys.exit(check(a[1], tier, seed))
    if a[0] == 'one':
        path = os.path.abspath(a[1]); conc = '-c' in a; nosym = '-C' in a
        sel = [x for x in a[2:] if not x.startswith('-')]
        jobs = [(path, h, o) for h, o in harnesses(path) if not sel or h in sel]
        res = {} if nosym else run_symbolic(jobs, tier, seed, 150)
        nat = Native()
        for path, h, o in jobs:
            if not nosym:
                r = res[(path, h)]; st, why = classify(r)
                print('%-10s %-30s paths %s(%s done, %s infeas) %.1fs z3 %.1fs/%s %s' % (st, h, r.get('paths'), r.get('completed'), r.get('infeasible'), r.get('time', 0), r.get('smt', {}).get('time', 0), r.get('smt', {}).get('queries', 0), why[:300]))
                if r.get('tb'): print(r['tb'])
                if '-v' in a:
                    for k, d in (r.get('obls') or {}).items(): print('    ', k, {x: y for x, y in d.items() if x != 'info'}, d['info'][:700])
                elif st != 'proved':
                    for k, d in (r.get('obls') or {}).items():
                        if d['failed'] or d['unknown']: print('    ', k, d['failed'], d['unknown'], d['proved'], d['info'][:900])
            if conc or nosym:
                rp = nat.run(path, h, int(o.get('samples', 300)), seed, tier)
                print('   native', h, rp and rp['summary'], json.dumps(rp['fails'][:2])[:1200] if rp else nat.err[-1500:])
        nat.close()
    if a[0] == 'replay':
        d = json.load(open(a[1])); path = os.path.join(VERIF, 'contracts', d['file']); nat = Native()
        c = None
        if d.get('native') and d['native'].get('fails') and 'inputs' in d['native']['fails'][0]: c = [d['native']['fails'][0]['inputs']]
        elif d.get('candidates'): c = d['candidates']
        rp = nat.run(path, d['harness'], 300, seed, tier, c)
        nat.close(); print(json.dumps(rp, indent=1)); sys.exit(1 if rp and rp['fails'] else 0)

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
