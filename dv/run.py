"""Check driver:  python3-vt -m dv.run PROPERTY [--tier quick|thorough]

For one property: compile its contract files against /repo's current tree to
LLVM IR, verify every contract function with dv.engine, replay every refuted
obligation natively, write evidence/<id>.json, print VIOLATION lines.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, signal, resource, traceback, argparse
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CONTRACTS = os.path.join(VERIF, 'contracts')
sys.setrecursionlimit(20000)
NCPU = min(8, os.cpu_count() or 4)

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)

def gen_config(dirn, on):
    """ristra-config.h as CMake would configure it (same options as the test build)."""
    src = open(os.path.join(REPO, 'ristra/ristra-config.h.in')).read()
    def f(m):
        return ('#define %s' if m.group(1) in on else '/* #undef %s */') % m.group(1)
    src = re.sub(r'#cmakedefine\s+(\w+).*', f, src)
    src = src.replace('@RISTRA_TEST_TOLERANCE@', '1.0e-14')
    d = os.path.join(dirn, 'ristra')
    os.makedirs(d, exist_ok=True)
    for p in (os.path.join(d, 'ristra-config.h'), os.path.join(dirn, 'ristra-config.h')):
        open(p, 'w').write(src)

DEF_ON = ['RISTRA_DOUBLE_PRECISION', 'RISTRA_ENABLE_PYTHON', 'RISTRA_ENABLE_LUA', 'RISTRA_ENABLE_EXCEPTIONS', 'RISTRA_DBC_REQUIRE']

class Unit:
    """one contract file with one set of flags"""
    def __init__(self, spec, scratch, tier):
        self.file = spec['file']
        self.tag = spec.get('tag') or re.sub(r'\W', '_', self.file)
        self.std = spec.get('std', 'c++17')
        self.defs = list(spec.get('defs', []))
        if tier == 'thorough':
            self.defs += ['-DTHOROUGH'] + list(spec.get('thorough_defs', []))
        self.inc = [i.replace('@CONTRACTS@', CONTRACTS).replace('@REPO@', REPO) for i in spec.get('inc', [])]
        self.config_on = spec.get('config', DEF_ON)
        self.ninc = [i.replace('@REPO@', REPO) for i in spec.get('native_inc', [])]
        self.libs = spec.get('libs', [])
        self.nsrc = spec.get('native_src', [])
        self.opts = spec.get('opts', {})
        self.native = spec.get('native', True)
        self.count = spec.get('count', 300)
        self.native_flags = spec.get('native_flags', ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,float-divide-by-zero'])
        self.dir = os.path.join(scratch, self.tag)
        os.makedirs(self.dir, exist_ok=True)
        gen_config(os.path.join(self.dir, 'cfg'), self.config_on)
        self.src = os.path.join(CONTRACTS, self.file)
        self.ll = os.path.join(self.dir, 'c.ll')
        self.exe = os.path.join(self.dir, 'native')
        self.err = None
        self.nerr = None

    def flags(self):
        return ['-std=' + self.std, '-I' + CONTRACTS, '-I' + os.path.join(self.dir, 'cfg'), '-I' + REPO, '-w'] + self.defs

    def start(self, native):
        self.p_ir = self.spawn(self.build_ir)
        self.p_nat = self.spawn(self.build_native) if native else None

    def spawn(self, f):
        pid = os.fork()
        if pid == 0:
            try:
                f()
                open(os.path.join(self.dir, f.__name__ + '.status'), 'w').write(json.dumps([self.err, self.nerr]))
            except BaseException as x:
                open(os.path.join(self.dir, f.__name__ + '.status'), 'w').write(json.dumps([str(x), str(x)]))
            finally:
                os._exit(0)
        return pid, f.__name__

    def finish(self, p, which):
        os.waitpid(p[0], 0)
        st = json.load(open(os.path.join(self.dir, p[1] + '.status')))
        if which == 'ir':
            self.err = st[0]
        else:
            self.nerr = st[1]

    def build_ir(self):
        raw = os.path.join(self.dir, 'raw.ll')
        cmd = ['clang++'] + self.inc + self.flags() + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names' if 0 else '-gline-tables-only',
               '-ffp-contract=off', '-S', '-emit-llvm', self.src, '-o', raw]
        r = sh(cmd)
        if r.returncode:
            self.err = 'clang++ cannot compile the contract file against the tree:\n' + r.stderr[-6000:]
            return
        r = sh(['opt', '-S', '-passes=sroa,simplifycfg', raw, '-o', self.ll])
        if r.returncode:
            self.err = 'opt failed: ' + r.stderr[-3000:]
        self.cmd = ' '.join(cmd)

    def build_native(self):
        if not self.native:
            self.nerr = 'no native build for this unit'
            return
        cmd = ['g++'] + self.ninc + self.flags() + ['-DV_NATIVE', '-O1', '-g1'] + self.native_flags + [self.src] + \
              [s.replace('@REPO@', REPO).replace('@CONTRACTS@', CONTRACTS) for s in self.nsrc] + [os.path.join(CONTRACTS, 'native.cc'), '-o', self.exe, '-lpthread'] + self.libs
        r = sh(cmd)
        if r.returncode:
            self.nerr = 'native build failed:\n' + r.stderr[-3000:]

def run_one(unit, mod, fname, opts, outp):
    """in a forked child: verify one contract, write JSON result"""
    from . import engine, rat
    lim = opts.get('mem_gb', 5) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    t0 = time.time()
    res = dict(contract=fname[4:], unit=unit.tag)
    rat.reset()
    e = engine.Engine(mod, opts)
    giveup = None
    try:
        e.run(fname)
    except engine.Giveup as x:
        giveup = str(x)
    except RecursionError:
        giveup = 'recursion limit of the verifier'
    except MemoryError:
        giveup = 'memory limit of the verifier'
    except Exception as x:
        giveup = 'verifier: %s: %s' % (type(x).__name__, x)
        res['trace'] = traceback.format_exc()[-3000:]
    res.update(giveup=giveup, ob=e.ob, backend=e.ob_backend, paths=e.paths, steps=e.steps, wall=time.time() - t0,
               solver_s=e.solver_time, covers=e.covers, bounded=sorted(e.bounded), externals=sorted(e.externals),
               funcs=sorted(e.funcs_seen), notes={k: v[:3] for k, v in e.notes.items()},
               fail=[dict(f.to_json(), inputs=f.model) for f in e.fail], unknown=[f.to_json() for f in e.unknown],
               named=getattr(e, 'named', {}))
    with open(outp, 'w') as f:
        json.dump(res, f, default=str)

def verify_unit(unit, jobs_sem, deadline, tier, only=None):
    """returns list of results; parses once, forks one child per contract"""
    from . import llparse
    mod = llparse.Module(open(unit.ll).read())
    names = [n for n in mod.funcs if n.startswith('@vc_') and (not only or only in n)]
    return mod, names

def num(v):
    if v is None:
        return None
    if isinstance(v, str) and '/' in v:
        a, b = v.split('/')
        try:
            return repr(int(a) / int(b))
        except (OverflowError, ZeroDivisionError):
            return '1e300'
    return str(v)

def write_inputs(path, contract, inputs, rng):
    import random
    with open(path, 'w') as f:
        f.write('contract %s\n' % contract)
        for kind, name, v in inputs or []:
            x = num(v)
            if x is None:
                x = str(rng.randint(-8, 8)) if kind == 'real' else str(rng.randint(0, 1) if kind == 'bool' else rng.randint(0, 3))
            f.write('in %s %s %s\n' % (kind, re.sub(r'\s', '_', name) or 'x', x))

def native_replay(unit, inp, outp, timeout=60):
    try:
        r = sh([unit.exe, 'replay', inp, outp], timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', 'does not terminate within %d s' % timeout
    txt = (r.stdout + r.stderr)[-4000:]
    if r.returncode == 0:
        return 'ok', txt
    if r.returncode == 2:
        return 'pre', txt
    if r.returncode == 3:
        return 'err', txt
    return 'fail', txt

def native_random(unit, seed, count, outp, contracts, timeout=120):
    try:
        r = sh([unit.exe, 'random', str(seed), str(count), outp] + list(contracts), timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', '', {}
    oks = {}
    for m in re.finditer(r'NATIVE contract=(\S+) ok=(\d+) skipped=(\d+)', r.stdout):
        oks[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    if r.returncode == 0:
        return 'ok', '', oks
    return 'fail', (r.stdout[-2500:] + r.stderr[-2500:]), oks

def dem(names):
    r = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@') for n in names), capture_output=True, text=True)
    return r.stdout.split('\n')

def load_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def templ(names):
    # one entry per function template of the repository with its number of instantiations under contract
    cnt = {}
    for n in names:
        n = n.strip('"')
        op = re.search(r'operator(\(\)|\[\]|->|<<=|>>=|<=>|<<|>>|<=|>=|<|>|==|[-+*/%&|^!=~]=?|\+\+|--|&&|\|\|)', n)
        tail = ''
        if op:
            n, tail = n[:op.start()], op.group(0)
        out, d = '', 0
        for ch in n:
            if ch in '<[{':
                d += 1
            elif ch in '>]}':
                d -= 1
            elif d <= 0:
                if ch == '(':
                    break
                out += ch
        out = out.strip().split(' ')[-1] + tail
        if out.startswith('ristra::') or (out.startswith('_Z') and 'ristra' in out):
            cnt[out] = cnt.get(out, 0) + 1
    return ['%s (%d instance%s)' % (k, v, '' if v == 1 else 's') for k, v in sorted(cnt.items())], sum(cnt.values())

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, CONTRACTS)
    import index
    spec = index.PROPS[a.prop]
    t0 = time.time()
    budget = 780 if tier == 'quick' else 7200
    scratch = tempfile.mkdtemp(prefix='dv-%s-' % a.prop)
    rc = 2
    try:
        rc = check(a, a.prop, spec, tier, seed, scratch, t0, budget)
    finally:
        if a.keep:
            print('scratch', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def check(a, prop, spec, tier, seed, scratch, t0, budget):
    import random
    rng = random.Random(seed)
    specs = list(spec['units']) + (list(spec.get('thorough_units', [])) if tier == 'thorough' else [])
    units = [Unit(s, scratch, tier) for s in specs]
    repdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(repdir, f))
    for u in units:
        u.start(not a.no_native)
    nf = {} if a.no_native else {u.tag: 1 for u in units}
    for u in units:
        u.finish(u.p_ir, 'ir')
    violations = []   # (unit, contract, failure, replay path, confirmed)
    results = []
    infra = []
    # ---------------- deductive verification
    jobs = []
    for u in units:
        if u.err:
            infra.append((u, u.err))
            continue
        jobs.append(u)
    running = {}
    queue = []
    from . import llparse, engine
    for u in jobs:
        try:
            mod = llparse.Module(open(u.ll).read())
        except Exception as x:
            infra.append((u, 'IR parse: %s' % x))
            continue
        names = [n for n in mod.funcs if n.startswith('@vc_') and (not a.only or a.only in n)]
        u.names = names
        for n in names:
            queue.append((u, mod, n))
    total = len(queue)
    opts0 = dict(time=spec.get('time', 240 if tier == 'quick' else 1500), solver_ms=10000 if tier == 'quick' else 60000)
    k = 0
    while queue or running:
        while queue and len(running) < NCPU:
            u, mod, n = queue.pop(0)
            outp = os.path.join(scratch, 'r%d.json' % k)
            k += 1
            o = dict(opts0)
            o.update(u.opts)
            pid = os.fork()
            if pid == 0:
                try:
                    run_one(u, mod, n, o, outp)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            running[pid] = (u, n, outp, time.time())
        pid = 0
        for p in running:
            q, stt = os.waitpid(p, os.WNOHANG)
            if q:
                pid = q
                break
        if pid == 0:
            time.sleep(0.01)
            now = time.time()
            for p, (u, n, outp, ts) in list(running.items()):
                if now - ts > opts0['time'] + 90 or now - t0 > budget:
                    os.kill(p, signal.SIGKILL)
            continue
        if pid not in running:
            continue
        u, n, outp, ts = running.pop(pid)
        try:
            r = json.load(open(outp))
        except Exception:
            r = dict(contract=n[4:], unit=u.tag, giveup='verifier process ended (time or memory limit)', ob={}, backend={}, paths=0, steps=0,
                     wall=time.time() - ts, solver_s=0, covers={}, bounded=[], externals=[], funcs=[], notes={}, fail=[], unknown=[])
        r['_u'] = u
        results.append(r)
    for u in units:
        if u.p_nat:
            u.finish(u.p_nat, 'native')
    # a tree that uses a library facility the assumed models do not provide cannot be verified against them; while the
    # contracts still build and run against the real library, they stand in (bounded, never counted as proved)
    for u, err in list(infra):
        if u.native and u.p_nat and not u.nerr:
            u.names = ['@vc_' + x for x in sh([u.exe, 'list']).stdout.split() if not a.only or a.only in x]
            if not u.names:
                continue
            infra.remove((u, err))
            u.err = None
            for n in u.names:
                results.append(dict(contract=n[4:], unit=u.tag, giveup='the assumed library models do not cover what the tree uses: ' + err[:600], ob={}, backend={}, paths=0, steps=0,
                                    wall=0, solver_s=0, covers={}, bounded=[], externals=[], funcs=[], notes={}, fail=[], unknown=[], _u=u))
    ex = ThreadPoolExecutor(NCPU)
    # ---------------- native replay and random runs
    native = {}
    evals = 0
    ncount = {}
    gave = set((r['unit'], r['contract']) for r in results if r['giveup'] or r['unknown'])
    for u in units:
        ncount[u.tag] = u.count * (1 if tier == 'quick' else 20)
    def nrand(u):
        if u.tag not in nf or u.nerr or u.err:
            return None
        names = [n[4:] for n in u.names]
        out = []
        def one(nm):
            o = os.path.join(u.dir, 'rand-%s.txt' % nm)
            return nm, o, native_random(u, seed, ncount[u.tag] * (20 if (u.tag, nm) in gave else 1), o, [nm])
        with ThreadPoolExecutor(4) as e2:
            return list(e2.map(one, names))
    nres = dict(zip([u.tag for u in units], ex.map(nrand, units)))
    nat = {}
    for tag, rs in nres.items():
        for nm, o, (st, txt, oks) in rs or []:
            nat[(tag, nm)] = (st, txt, oks, o)
            for a1, b1 in oks.values():
                evals += a1
    fid = 0
    findings = load_findings()
    known = [f for f in findings['findings'] if f['property'] == prop]
    known_hit = set()
    stand_in = []
    def is_known(contract, obligation):
        for i, f in enumerate(known):
            if f['contract'] == contract and f['obligation'] in obligation:
                known_hit.add(i)
                return True
        return False
    vlines = []
    def report(u, contract, obligation, body, inputs_file, confirmed):
        nonlocal fid
        if is_known(contract, obligation):
            return
        fid += 1
        base = os.path.join(repdir, '%s-%d' % (prop, fid))
        rep = dict(property=prop, contract=contract, contract_file='contracts/' + u.file, obligation=obligation, tier=tier,
                   unit=u.tag, confirmed_by_native_replay=confirmed, verifier=body, flags=u.flags())
        if inputs_file and os.path.exists(inputs_file):
            shutil.copy(inputs_file, base + '.inputs')
            rep['inputs'] = open(base + '.inputs').read().split('\n')
            rep['replay_cmd'] = 'bash %s/replay.sh %s' % (VERIF, base + '.json')
        json.dump(rep, open(base + '.json', 'w'), indent=1, default=str)
        vlines.append('VIOLATION property=%s replay=%s.json%s' % (prop, base, '' if confirmed else ' no-failing-input-found'))
        print('  obligation: [%s] %s' % (contract, obligation))
        if isinstance(body, dict):
            print('    at %s' % (body.get('where'),))
            print('    %s' % str(body.get('detail'))[:300])
    for u, err in infra:
        print(err[-2500:])
        report(u, '<compile>', 'the contract file no longer compiles against the tree', err, None, False)
    results.sort(key=lambda r: (r['unit'], r['contract']))
    for r in results:
        u = r['_u']
        c = r['contract']
        n = nat.get((u.tag, c))
        seen = set()
        for i, f in enumerate(r['fail']):
            key = (f['kind'], f['obligation'])
            if key in seen or len(seen) > 3:
                continue
            seen.add(key)
            confirmed = False
            fin = None
            body = dict(f)
            if not u.nerr and u.tag in nf:
                for attempt in range(3):
                    inp = os.path.join(u.dir, 'in-%s-%d-%d.txt' % (c, i, attempt))
                    write_inputs(inp, c, f.get('model'), rng)
                    st, txt = native_replay(u, inp, os.path.join(u.dir, 'out.txt'))
                    if st in ('fail', 'timeout'):
                        confirmed = True
                        fin = inp
                        body['native'] = txt
                        break
                    if all(x[2] is not None for x in f.get('model') or []):
                        break
                if not confirmed and n and n[0] in ('fail', 'timeout'):
                    confirmed = True
                    fin = n[3]
                    body['native'] = n[1]
            report(u, c, f['obligation'], body, fin, confirmed)
        if not r['fail'] and n and n[0] in ('fail', 'timeout'):
            why = 'does not terminate (120 s)' if n[0] == 'timeout' else (re.search(r'obligation=(.*)', n[1]) or [None, (re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*)', n[1]) or [None, 'abnormal termination'])[1]])[1]
            report(u, c, why, dict(where='native execution of the contract', detail=n[1]), n[3], True)
        if r['giveup'] or r['unknown']:
            nn = n[2].get(c, (0, 0)) if n else (0, 0)
            stand_in.append(dict(contract=c, reason=r['giveup'] or ('solver gave no answer: ' + r['unknown'][0]['obligation']), native_samples=nn[0]))
        elif not r['fail']:
            # vacuity
            if r['covers'].get('<end>', 0) == 0 or not any(kk in r['ob'] for kk in ('assert', 'eq')):
                report(u, c, 'contract is vacuous: no path reaches its postcondition', dict(where='', detail='paths=%s ob=%s' % (r['paths'], r['ob'])), None, False)
    # where a failing input was found, it stands for the obligations that fail without one (their replay files are kept)
    sure = [l for l in vlines if not l.endswith('no-failing-input-found')]
    vlines = sure or vlines
    # ---------------- evidence
    obl = sum(sum(r['ob'].values()) for r in results)
    nfail = sum(len(r['fail']) + len(r['unknown']) for r in results)
    backend = {}
    kinds = {}
    for r in results:
        for kk, vv in r['backend'].items():
            backend[kk] = backend.get(kk, 0) + vv
        for kk, vv in r['ob'].items():
            kinds[kk] = kinds.get(kk, 0) + vv
    funcs = set()
    for r in results:
        funcs.update(r['funcs'])
    dn, n_inst = templ(dem(sorted(funcs)))
    ext = sorted(set(x for r in results for x in r['externals']))
    bnd = sorted(set(x for r in results for x in r['bounded']))
    proved = [r['contract'] for r in results if not r['fail'] and not r['unknown'] and not r['giveup'] and not r['bounded']]
    level = spec.get('level', 'proof')
    assumptions = list(spec.get('assumptions', [])) + [
        'machine floating point is treated as exact real arithmetic (rounding, overflow and NaN are outside the proof; the native runs execute the real arithmetic)',
        'clang 18 -O0 lowering to LLVM IR, sroa and simplifycfg preserve the semantics of the source',
        'the verifier itself (dv/*.py), z3 and cvc5 are trusted'] + ['external: ' + x for x in ext] + ['bounded: ' + x for x in bnd] + \
        ['bounded stand-in (native execution of the contract on %d samples) for %s: %s' % (s['native_samples'], s['contract'], s['reason']) for s in stand_in]
    notes = {}
    for r in results:
        for kk, vv in r['notes'].items():
            notes.setdefault(kk, []).append([r['contract']] + vv[:1])
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(obligations=obl + nfail, discharged=obl, checker_cmd='python3-vt -m dv.run %s --tier %s' % (prop, tier),
                            trusted_base=['clang 18 front end and opt sroa/simplifycfg', 'dv engine (LLVM-IR symbolic VC generator, exact rational arithmetic)', 'z3 %s' % __import__('z3').get_version_string(), 'cvc5 1.1.2'] + ext,
                            backends=backend, obligation_kinds=kinds, contracts=len(results), contracts_proved=proved,
                            contracts_bounded=[r['contract'] for r in results if r['bounded'] and not r['giveup']],
                            contracts_stand_in=stand_in, functions_under_contract=dn, n_functions_under_contract=len(dn), n_instances_under_contract=n_inst,
                            paths=sum(r['paths'] for r in results), ir_steps=sum(r['steps'] for r in results),
                            solver_s=round(sum(r['solver_s'] for r in results), 2), native_evaluations=evals,
                            per_contract=[dict(contract=r['contract'], obligations=r['ob'], backends=r['backend'], paths=r['paths'], wall_s=round(r['wall'], 2)) for r in results],
                            notes={kk: vv[:8] for kk, vv in notes.items()}),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(vlines))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for i in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[i]['what']))
    for u in units:
        if u.nerr and a.v:
            print(u.tag, u.nerr)
    if a.v:
        for r in results:
            n = nat.get((r['unit'], r['contract']))
            nn = n[2].get(r['contract'], (0, 0))[0] if n else 0
            if not (r['giveup'] or r['unknown'] or r['fail'] or r['wall'] > 20 or nn < 20 or a.only):
                continue
            print('%-34s ob=%s be=%s paths=%d %.1fs %s native=%s%s' % (r['contract'], r['ob'], r['backend'], r['paths'], r['wall'], 'GIVEUP ' + r['giveup'] if r['giveup'] else '', n[2].get(r['contract']) if n else None, ' BOUNDED' if r['bounded'] else ''))
            if r.get('trace') and r['giveup']:
                print('     ', ' | '.join(l.strip() for l in r['trace'].split('\n')[-5:]))
            for x in r['unknown'][:3]:
                print('   UNKNOWN', x['obligation'], x['where'], x['detail'][:200])
        if notes:
            print('notes', json.dumps(notes, default=str)[:600])
    print('%s: %d contracts, %d obligations, %d discharged, %d stand-in, %d violations, native %d, %.1fs' % (prop, len(results), obl + nfail, obl, len(stand_in), len(vlines), evals, time.time() - t0))
    for v in vlines:
        print(v)
    return 1 if vlines else 0

if __name__ == '__main__':
    main()
