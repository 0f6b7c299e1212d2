"""Driver shared by every check: seeded cases, a worker pool, the confirmation gate, minimisation, replay files, evidence.

A *case* is plain data (JSON): {'prop', 'scenario', 'seed', 'jobs': {name: [[key, value], ...]}, 'params': {...}}.
A property supplies  make(rng, seed) -> case  and  check(case, run) -> None | (signature, message).
`check` may only learn about the world through `run`, so a case decides its outcome completely.
"""
import collections, hashlib, json, os, random, sys, time, traceback
from multiprocessing import Pool, get_context
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as hb
from hsimlib import Server
ROOT = os.path.dirname(HERE)
EVID = os.path.join(ROOT, 'evidence')
REPLAY = os.environ.get('HSIM_REPLAY', os.path.join(ROOT, 'replay'))
SCHED_KEYS = ('mode', 'mean', 'pctk', 'pctd', 'sitemod', 'sitemean')


class SimError(Exception):
    """the simulator itself is at fault; never a verdict about the compiler"""


class Run:
    def __init__(self, srv, full_sdk=False):
        self.srv = srv
        self.case = None
        self.reset()

    def reset(self):
        self.n = 0; self.hashes = []; self.faults = collections.Counter(); self.stats = collections.Counter(); self.status = collections.Counter()
        self.compiles = 0; self.produced = 0; self.probes = collections.Counter(); self.made = (None, None, None)

    def __call__(self, job, **over):
        """job: name of a job of the case, or a list of items"""
        items = [tuple(x) for x in (self.case['jobs'][job] if isinstance(job, str) else job)]
        if over:
            items = [x for x in items if x[0] not in over] + list(over.items())
        of = [v for k, v in items if k == 'imageof']        # a run of a program that another run of the case produces: 'job path'
        if of:
            n, f = of[0].split(' ', 1)
            if self.made[0] is not self.case or self.made[1] != n: self.made = (self.case, n, self(n))
            q = self.made[2]
            if q['status'] != 'exit' or f not in q['files']: return q
            items = [('image', q['files'][f].decode('latin-1'))] + [x for x in items if x[0] != 'imageof']
        if self.case and self.case.get('base') and any(k == 'image' for k, _ in items): items = items + [('rebase', self.case['base'])]
        for attempt in (0, 1):
            r = self.srv.run(items)
            if r['status'] == 'hang' and attempt == 0:      # the only outcome that depends on real time: ask again with a lot more of it
                items = [x for x in items if x[0] != 'wall'] + [('wall', 90)]
                continue
            break
        if r['status'] == 'simerror':
            raise SimError(r.get('detail', ''))
        self.n += 1
        if any(k == 'image' for k, _ in items): self.produced += 1
        else: self.compiles += 1
        self.hashes.append(r['schedhash'])
        self.status[r['status']] += 1
        for k, v in r['faults'].items(): self.faults[k] += v
        for k in ('events', 'preempt', 'forced', 'steps', 'simtime_ns', 'sites', 'threads', 'stepped', 'buffered', 'delayed'):
            if k in r['stats']: self.stats[k] += r['stats'][k]
        return r

    def probe(self, name, n=1):
        self.probes[name] += n


def job(files, cmd, *extra, **kw):
    """files: {path: text}; kw: sched=[...], faults=[(kind, nth, arg)], other simulator keys"""
    it = [['dir', 'C:/sdk/Include/10.0.1.0/' + x] for x in ('um', 'shared', 'ucrt', 'winrt')]
    for k, v in files.items():
        it.append(['file', (k if ':' in k else 'C:/work/' + k) + '\0' + (v if isinstance(v, str) else v.decode('latin-1'))])
    it.append(['cmd', cmd])
    for k in ('sched', 'faults'):
        if k in kw:
            x = kw.pop(k)
            if k == 'sched': it += [list(y) for y in x or []]
            elif x: it.append(['faults', ''.join('%s %d %s\n' % tuple(f) for f in x)])
    it += [list(x) for x in extra] + [[k, v] for k, v in kw.items()]
    return it


def sched(r, small=False):
    """a random scheduling policy for one run"""
    it = [('seed', r.getrandbits(48)), ('gran', r.choice([0, 1, 1, 2])), ('knob', r.choice([0, 0, 16, 16, 32]))]
    m = r.choice([1, 1, 2, 3, 3]); it.append(('mode', m))
    if m == 1: it.append(('mean', r.choice([3, 10, 30, 100, 400, 2000])))
    if m == 2: it += [('pctk', r.choice([2000, 10000, 40000])), ('pctd', r.choice([3, 8, 20]))]
    if m == 3: it += [('sitemod', r.choice([5, 20, 60])), ('sitemean', r.choice([1, 3, 20]))]
    return it


# ---- worker side --------------------------------------------------------------------------------------------------
_prop = None; _run = None

def _init(pid):
    global _prop, _run
    import props
    _prop = props.PROPS[pid]
    _run = Run(Server())

def case_of(prop, base, idx, tier, run=None):
    seed = int.from_bytes(hashlib.sha256(('%s/%d/%d' % (prop.id, base, idx)).encode()).digest()[:7], 'big')
    r = random.Random(seed)
    if run is not None: prop.run = run
    case = prop.make(r, seed, tier)
    case.update(prop=prop.id, seed=seed, index=idx)
    case['base'] = r.choice([0, (1 << 32) + (r.randrange(0xc0000) << 16), (1 << 36) - (1 << 28) - (r.randrange(0x1000) << 16)])      # where produced images that can be moved are loaded (0: where they ask for)
    return case

def check_case(prop, case, run):
    run.case = case
    return prop.check(case, run)

def _work(a):
    base, idx, tier = a
    _run.reset()
    out = {'idx': idx}
    try:
        case = case_of(_prop, base, idx, tier, _run)
        v = check_case(_prop, case, _run)
        if v and v[0].startswith('known:'): v = None
        out['v'] = v
        if v: out['case'] = case
        elif idx < 3: out['sample'] = brief(case)
    except SimError as e:
        out['err'] = 'simulator: %s' % e
    except Exception:
        out['err'] = traceback.format_exc()
    key = hashlib.sha256(repr(sorted(_run.hashes)).encode()).hexdigest()[:16]
    out.update(n=_run.n, hashes=_run.hashes, faults=_run.faults, stats=_run.stats, status=_run.status, compiles=_run.compiles, produced=_run.produced, probes=_run.probes, key=key, scenario=case.get('scenario', '') if 'case' in dir() else '')
    return out

def brief(case):
    c = dict(case); c['jobs'] = {n: [[k, v if len(str(v)) < 700 else str(v)[:700] + '...'] for k, v in it] for n, it in list(case['jobs'].items())[:2]}
    return c


# ---- minimisation ---------------------------------------------------------------------------------------------------
def ddmin(xs, ok, deadline):
    """xs: list; ok(subset) -> bool. Returns a (locally) minimal subset for which ok holds; ok(xs) is assumed."""
    n = 2
    if ok([]): return []
    while len(xs) >= 2 and time.time() < deadline:
        k = max(1, len(xs) // n); done = False
        for i in range(0, len(xs), k):
            if time.time() > deadline: break
            sub = xs[:i] + xs[i + k:]
            if ok(sub):
                xs = sub; n = max(n - 1, 2); done = True
                break
        if not done:
            if k == 1: break
            n = min(len(xs), n * 2)
    return xs

def get(items, key):
    for k, v in items:
        if k == key: return v
    return None

def put(items, key, val):
    out = [list(x) for x in items if x[0] != key]
    if val is not None: out.append([key, val])
    return out

def minimise(prop, case, sig, run, seconds):
    end = time.time() + seconds
    steps = []
    def ok(c):
        try: v = check_case(prop, c, run)
        except SimError: return False
        return bool(v) and v[0] == sig
    def repl(c, name, items):
        d = json.loads(json.dumps(c)); d['jobs'][name] = items; return d
    # jobs the violation does not need (a property may mark its schedules as droppable)
    if prop.drop_jobs:
        names = [n for n in case['jobs'] if n.startswith('s')]
        if len(names) > 1:
            def sub(keep):
                d = json.loads(json.dumps(case)); d['jobs'] = {n: it for n, it in d['jobs'].items() if not n.startswith('s') or n in keep}; return d
            for n in names:
                if ok(sub([n])): case = sub([n]); steps.append('jobs %d->1' % len(names)); break
    # schedules become explicit lists of switches
    for name in list(case['jobs']):
        it = case['jobs'][name]
        if get(it, 'mode') in (None, 0, '0'): continue
        run.case = case
        r = run(name, trace=1)
        if r.get('trace', '').count('\n') > 200000: steps.append('%s: more than 200000 switches, kept the seed' % name); continue
        it2 = [x for x in it if x[0] not in SCHED_KEYS] + [['mode', 0], ['sw', r.get('trace', '')]]
        c2 = repl(case, name, it2)
        if not ok(c2): steps.append('%s: explicit schedule did not reproduce, kept the seed' % name); continue
        case = c2
        # without any switch at all?
        lines = [l for l in r.get('trace', '').split('\n') if l]
        n0 = len(lines)
        def tryl(ls, case=case, name=name): return ok(repl(case, name, put(case['jobs'][name], 'sw', ''.join(x + '\n' for x in ls))))
        lines = ddmin(lines, tryl, end)
        case = repl(case, name, put(case['jobs'][name], 'sw', ''.join(x + '\n' for x in lines)))
        steps.append('%s: %d switches -> %d' % (name, n0, len(lines)))
    for name in list(case['jobs']):
        f = get(case['jobs'][name], 'faults')
        if not f: continue
        lines = [l for l in f.split('\n') if l]
        if len(lines) > 1:
            n0 = len(lines)
            lines = ddmin(lines, lambda ls: ok(repl(case, name, put(case['jobs'][name], 'faults', ''.join(x + '\n' for x in ls)))), end)
            case = repl(case, name, put(case['jobs'][name], 'faults', ''.join(x + '\n' for x in lines)))
            steps.append('%s: %d faults -> %d' % (name, n0, len(lines)))
    # source declarations, when the verdict of the property does not come from a model of the whole program
    if prop.shrink_src:
        keys = sorted({v.split('\0', 1)[0] for it in case['jobs'].values() for k, v in it if k == 'file'})
        for key in keys:
            if time.time() > end: break
            txt = next(v.split('\0', 1)[1] for it in case['jobs'].values() for k, v in it if k == 'file' and v.split('\0', 1)[0] == key)
            decls = split_decls(txt)
            if len(decls) < 2: continue
            def withd(ds):
                d = json.loads(json.dumps(case))
                for it in d['jobs'].values():
                    for x in it:
                        if x[0] == 'file' and x[1].split('\0', 1)[0] == key: x[1] = key + '\0' + ''.join(ds)
                return d
            n0 = len(decls)
            decls = ddmin(decls, lambda ds: ok(withd(ds)), end)
            case = withd(decls)
            if len(decls) < n0: steps.append('%s: %d declarations -> %d' % (key, n0, len(decls)))
    return case, steps

def split_decls(t):
    out = []; cur = ''; depth = 0
    for line in t.split('\n'):
        cur += line + '\n'; depth += line.count('{') - line.count('}')
        if depth <= 0: out.append(cur); cur = ''; depth = 0
    if cur.strip(): out.append(cur)
    return [x for x in out if x.strip()]


# ---- the check --------------------------------------------------------------------------------------------------------
def outcome(prop, case, run):
    run.reset()
    v = check_case(prop, case, run)
    return (v[0] if v else None), list(run.hashes), (v[1] if v else '')

def candidates(prop, case, sig, tier):
    run = Run(Server())
    small, steps = minimise(prop, case, sig, run, 60 if tier == 'quick' else 240)
    run.srv.close()
    if steps: yield small, steps
    yield case, []

def confirm_and_report(prop, case, v, base, tier):
    """gate: same process twice, then a fresh process; otherwise the check is at fault"""
    run = Run(Server())
    a = outcome(prop, case, run); b = outcome(prop, case, run)
    if a[0] != v[0] or a[:2] != b[:2]:
        print('CHECK-ERROR: case %d of %s does not reproduce (%r, then %r, %r)' % (case['index'], prop.id, v[0], a[0], b[0])); return None
    run.srv.close()
    # what is reported must replay in a fresh process, twice; the minimised case first, the case as it was found otherwise
    for small, steps in candidates(prop, case, v[0], tier):
        a, b = Run(Server()), Run(Server())
        m = outcome(prop, small, a); a.srv.close()
        f = outcome(prop, small, b); b.srv.close()
        if m[0] == v[0] and m[:2] == f[:2]: break
        print('note: %s of case %d replays as %r, then %r (%d, %d runs)' % ('minimised case' if steps else 'case', case['index'], m[0], f[0], len(m[1]), len(f[1])))
    else:
        print('CHECK-ERROR: case %d of %s does not replay in a fresh process' % (case['index'], prop.id)); return None
    os.makedirs(REPLAY, exist_ok=True)
    small.update(signature=v[0], message=m[2], base_seed=base, minimised=steps)
    path = os.path.join(REPLAY, '%s-%d-%d.json' % (prop.id, base, case['index']))
    json.dump(small, open(path, 'w'), indent=1)
    return path, m[2], steps

def load_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def run_check(pid, tier, jobs=None):
    t0 = time.time()
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        hb.build()
    except hb.BuildError as e:
        print('CHECK-ERROR: build failed\n%s' % e); return 3
    import props
    prop = props.PROPS[pid]
    total = prop.cases[0 if tier == 'quick' else 1]
    limit = 300 if tier == 'quick' else 7200
    workers = int(os.environ.get('HSIM_WORKERS', '8'))
    print('%s %s: VERIF_SEED=%d, %d cases, %d workers' % (pid, tier, base, total, workers)); sys.stdout.flush()
    # listed findings: each one is probed, never assumed
    rc = 0
    kf = [f for f in load_findings()['findings'] if f['property'] == pid]
    if kf:
        run = Run(Server())
        for f in kf:
            case = props.finding_case(f)
            v = check_case(prop, case, run)
            if v: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
            else: print('note: listed finding %s no longer occurs' % f['id'])
        run.srv.close()
    T = collections.Counter(); faults = collections.Counter(); status = collections.Counter(); stats = collections.Counter(); probes = collections.Counter(); scen = collections.Counter()
    hashes = set(); keys = set(); samples = []; bad = []; errs = []; done = 0
    ctx = get_context('fork')
    with ctx.Pool(workers, _init, (pid,)) as pool:
        for o in pool.imap_unordered(_work, ((base, i, tier) for i in range(total)), chunksize=prop.chunk):
            done += 1
            T['runs'] += o['n']; T['compiles'] += o['compiles']; T['produced'] += o['produced']
            faults.update(o['faults']); status.update(o['status']); stats.update(o['stats']); probes.update(o['probes']); hashes.update(o['hashes']); keys.add(o['key']); scen[o['scenario']] += 1
            if 'sample' in o: samples.append(o['sample'])
            if 'err' in o: errs.append(o['err'])
            if o.get('v'): bad.append(o)
            if bad or len(errs) > 3 or time.time() - t0 > limit: pool.terminate(); break
    seen = set()
    if errs:
        print('CHECK-ERROR: ' + errs[0][:3000]); rc = 3
    violations = []
    for o in sorted(bad, key=lambda x: x['idx'])[:1]:
        c = confirm_and_report(prop, o['case'], o['v'], base, tier)
        if c is None: rc = 2; continue
        path, msg, steps = c
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case %d: %s' % (o['idx'], msg[:1500]))
        print('  minimised: %s' % '; '.join(steps))
        violations.append({'replay': path, 'signature': o['v'][0], 'message': msg[:2000]}); rc = 1
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': base, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(violations) if True else 0,
          'coverage': {
              'evaluations': done, 'distinct_nontrivial': len(keys), 'rule': prop.rule, 'samples': samples or [{'none': True}],
              'simulated_runs': T['runs'], 'runs_of_the_compiler': T['compiles'], 'runs_of_produced_programs': T['produced'],
              'runs_per_hour': int(T['runs'] / max(wall, .01) * 3600), 'seeds_per_hour': int(done / max(wall, .01) * 3600),
              'simulated_time_s': round(stats['simtime_ns'] / 1e9, 3), 'scheduling_points': stats['events'], 'steps': stats['steps'], 'preemptions': stats['preempt'], 'forced_switches': stats['forced'], 'instructions_of_produced_programs_stepped': stats['stepped'], 'stores_buffered': stats['buffered'], 'switches_with_delayed_stores': stats['delayed'],
              'distinct_interleavings': len(hashes), 'distinct_interleavings_measure': 'distinct hashes over the sequence (thread, event number, target thread) of all context switches of a run',
              'faults_fired': dict(faults), 'run_outcomes': dict(status), 'scenarios': dict(scen), 'rare_conditions_hit': dict(probes),
              'real_code': 'all of /repo/src (the compiler, built from the working tree), /repo/implicit, and the machine code the compiler produced',
              'stubs': 'Windows: kernel32/advapi32/ucrt entry points, file system, registry, clock, console, thread scheduler; import libraries of /opt/hlc/sdk/Lib are the installed ones'},
          }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s: %d cases, %d runs, %d distinct interleavings, faults fired %s, %.1f s, exit %d' % (pid, done, T['runs'], len(hashes), dict(faults), wall, rc))
    return rc

def replay(path):
    case = json.load(open(path))
    hb.build()
    import props
    prop = props.PROPS[case['prop']]
    run = Run(Server())
    s, h, msg = outcome(prop, case, run)
    if s == case['signature']:
        print('VIOLATION property=%s replay=%s\n  %s: %s' % (prop.id, path, s, msg)); return 1
    print('not reproduced on this tree (recorded %s, now %s %s)' % (case['signature'], s, msg)); return 0
