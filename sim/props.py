"""The properties: how their cases are made and what decides them."""
import re, random
from core import job, sched, get, put
from gen import Gen

PROPS = {}

class Prop:
    id = None
    cases = (100, 1000)     # quick, thorough
    chunk = 2
    shrink_src = False
    drop_jobs = True
    rule = ''
    def make(self, r, seed, tier): raise NotImplementedError
    def check(self, case, run): raise NotImplementedError

def prop(c):
    PROPS[c.id] = c(); return c

def finding_case(f):
    return f['case']

# ---- helpers --------------------------------------------------------------------------------------------------------
def norm_diag(line):
    line = re.sub(r"' \(aka [^)]*\)", "'", line)
    line = re.sub(r"'[^']*'", "'?'", line) if 'aka' in line or 'given' in line or "type" in line.lower() else line
    return line.strip()

def diags(out):
    """multiset of diagnostics; type spellings (which of several identical types is printed) are not part of a diagnostic"""
    return sorted(norm_diag(l) for l in out.split('\n') if re.search(r'([Ee]rror|Warning)\b', l))

def errors(out): return [l for l in out.split('\n') if re.search(r'[Ee]rror\b', l)]

def outs(r): return sorted(r['files'])

def incs(t): return ''.join(' -I %s' % d for d in sorted({x.rsplit('/', 1)[0] for x in t if x.endswith('.h') and '/' in x}))

def compile_cmd(t, extra='', tc=1, out='-out a.exe'):
    extra += incs(t)
    return 'hlc.exe %s -nostdlib -quiet %s%s -thread_count %d' % (' '.join(x for x in t if x.endswith('.c')), out, ' ' + extra if extra else '', tc)

def tail(s, n=300): return s[-n:].strip()

def bad_end(r):
    """a run of the compiler that did not end by itself"""
    if r['status'] == 'exit': return None
    return '%s: %s' % (r['status'], r['detail'][:300])

def sched_names(case): return [n for n in case['jobs'] if n.startswith('s')]

SIZES = [4, 8, 8, 14, 14, 30]

def project(r, tier, errs=0, opts=()):
    size = r.choice(SIZES + ([60, 120] if tier == 'thorough' else [60] if r.random() < .3 else []))
    g = Gen(r.getrandbits(40), r.choice([1, 2, 3, 5, 8]), size, opts).generate([r.choice(Gen.KINDS) for _ in range(errs)])
    if r.random() < .5: g.make_headers(r)
    return g

def schedules(r, t, n, extra='', out='-out a.exe', name='s'):
    js = {}
    for j in range(n):
        tc = r.choice([2, 2, 3, 4, 6])
        js['%s%d' % (name, j)] = job(t, compile_cmd(t, extra, tc, out), sched=sched(r))
    return js

def run_exe(run, data, **kw):
    it = [['image', data.decode('latin-1')], ['cmd', 'a.exe']] + [[k, v] for k, v in kw.items()]
    return run(it)

# ---- P01 ------------------------------------------------------------------------------------------------------------
LOCATION_FREE = {'struct_conflict', 'enum_conflict', 'type_conflict', 'kind_conflict', 'sig_conflict', 'redef_func', 'redef_glob', 'asize_conflict', 'typedef_conflict',
                 'circular', 'def_declares', 'elem_conflict', 'export_undef', 'extern_init', 'member_conflict', 'member_order', 'param_conflict', 'ret_conflict', 'static_conflict', 'static_redef',
                 'tag_conflict', 'tls_conflict', 'asize_def', 'tag_typedef', 'ptr_conflict'}

@prop
class P01(Prop):
    id = 'P01'
    cases = (2000, 20000)
    shrink_src = True
    rule = ('a case is a generated multi-unit program (valid, or with 1..3 mistakes out of 85 kinds), compiled once by one thread and under 8 seeded schedules with 2..6 threads; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        ne = r.choice([0, 0, 1, 1, 1, 2, 3])
        g = project(r, tier, ne); t = g.texts()
        x = r.choice(['', '', '', '-Wall', '-Wall', '-Wall -Wno unused_local_variable', '-Wnone', '-W function_defined_but_unreachable', '-Wall -show_includes', '-show_includes'])
        js = {'base': job(t, compile_cmd(t, x, tc=1))}
        js.update(schedules(r, t, 8, x))
        single = len(g.marks) == 1 and g.marks[0][0] not in LOCATION_FREE
        return {'scenario': 'valid' if not ne else 'mistakes', 'jobs': js, 'params': {'errors': len(g.marks), 'exact': not g.marks or single}}
    def check(self, case, run):
        b = run('base')
        if b['status'] != 'exit': return None          # decided elsewhere
        for n in sched_names(case):
            q = run(n)
            if q['status'] != 'exit': continue
            if (q['code'] == 0) != (b['code'] == 0):
                return 'verdict', '%s: exit code %d with several threads, %d with one: %s' % (n, q['code'], b['code'], tail(q['stdout'] or b['stdout']))
            if q['code'] != b['code']: return 'code', '%s: exit code %d with several threads, %d with one: %s' % (n, q['code'], b['code'], tail(q['stdout']))
            if outs(q) != outs(b): return 'outputs', '%s: outputs %s, with one thread %s' % (n, outs(q), outs(b))
            if case['params']['exact']:
                x, y = diags(q['stdout']), diags(b['stdout'])
                if not q['code']: x += sorted(l for l in q['stdout'].split('\n') if l.startswith('Note')); y += sorted(l for l in b['stdout'].split('\n') if l.startswith('Note'))
                if x != y:
                    return 'diagnostics', '%s: only with several threads: %s; only with one: %s' % (n, [l for l in x if l not in y][:3], [l for l in y if l not in x][:3])
        return None

@prop
class P02(Prop):
    id = 'P02'
    cases = (2000, 20000)
    rule = ('a case is a generated valid program whose result a separate model computes; compiled by one thread and under 6 seeded schedules with 2..6 threads, every executable is run in the simulator; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        g = project(r, tier); t = g.texts()
        js = {'base': job(t, compile_cmd(t, tc=1))}
        js.update(schedules(r, t, 6))
        if r.random() < .05: js['zero'] = job(t, compile_cmd(t, tc=0))
        return {'scenario': 'exe', 'jobs': js, 'params': {'expected': g.expected()}}
    def check(self, case, run):
        exp = case['params']['expected']
        for n in list(case['jobs']):
            q = run(n)
            if q['status'] != 'exit': continue
            if n == 'zero' and q['code'] and 'Error' in q['stdout']: continue
            if q['code'] != 0: return 'rejected', '%s: a valid program was rejected: %s' % (n, tail(q['stdout']))
            e = q['files'].get('c:/work/a.exe')
            if e is None: return 'no-output', '%s: exit code 0 but no executable' % n
            z = run_exe(run, e)
            if z['status'] != 'exit': return 'program-' + z['status'], '%s: the program ended with %s %s' % (n, z['status'], z['detail'][:200])
            if z['code'] & 0xffffffff != exp: return 'program-result', '%s: the program returned %d, the source means %d' % (n, z['code'] & 0xffffffff, exp)
        return None

@prop
class P03(Prop):
    id = 'P03'
    cases = (2500, 25000)
    shrink_src = True
    rule = ('a case is a generated multi-unit program (valid or with mistakes) compiled under 8 seeded schedules with 2..8 threads; a run has to end within a step budget; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        ne = r.choice([0, 0, 0, 1, 2])
        g = project(r, tier, ne); t = g.texts()
        return {'scenario': 'valid' if not ne else 'mistakes', 'jobs': dict(schedules(r, t, 8), base=job(t, compile_cmd(t, tc=1))), 'params': {}}
    def check(self, case, run):
        b = run('base')
        if b['status'] != 'exit' : return b['status'], 'with one thread: ' + bad_end(b)
        for n in sched_names(case):
            q = run(n)
            if q['status'] != 'exit': return q['status'], '%s: %s' % (n, bad_end(q))
            if q['code'] not in (0, 1): return 'abnormal', '%s: exit code %d: %s' % (n, q['code'], tail(q['stdout']))
        return None

@prop
class P05(Prop):
    id = 'P05'
    cases = (2500, 25000)
    shrink_src = False
    rule = ('a case is a generated multi-unit program with 1..3 mistakes out of 85 kinds at random places, compiled by one thread and under 8 seeded schedules with 2..6 threads, or 10 small programs with one mistake each; '
            'two cases are the same if all their runs took the same interleavings')
    VARIED = ['enum_conflict', 'type_conflict', 'sig_conflict', 'redef_glob', 'asize_conflict', 'typedef_conflict', 'dup_case', 'arg_many', 'arg_few', 'elem_conflict', 'ret_conflict', 'param_conflict', 'static_conflict', 'member_conflict']
    def make(self, r, seed, tier):
        if r.random() < .5:                             # many small programs with one mistake each
            js = {}; M = {}
            for j in range(10):
                g = Gen(r.getrandbits(40), r.choice([1, 2, 2, 3]), r.choice([0, 1, 3, 6])).generate([r.choice(self.VARIED if r.random() < .5 else Gen.KINDS)]); t = g.texts(); tc = r.choice([1, 1, 2, 3, 4])
                js['s%d' % j] = job(t, compile_cmd(t, tc=tc), sched=sched(r) if tc > 1 else None); M['s%d' % j] = [[k, m] for k, m, _ in g.marks]
            return {'scenario': 'small', 'jobs': js, 'params': {'marks': M}}
        g = project(r, tier, r.choice([1, 1, 1, 2, 3])); t = g.texts()
        js = {'base': job(t, compile_cmd(t, tc=1))}
        js.update(schedules(r, t, 8))
        return {'scenario': 'mistakes', 'jobs': js, 'params': {'marks': [[k, m] for k, m, _ in g.marks]}}
    def check(self, case, run):
        for n in case['jobs']:
            marks = case['params']['marks']
            if isinstance(marks, dict): marks = marks[n]
            q = run(n)
            if q['status'] != 'exit': continue
            for k, _ in marks: run.probe(k)
            if q['code'] == 0: return 'accepted', '%s: a program with the mistakes %s was accepted' % (n, marks)
            if 'c:/work/a.exe' in q['files']: return 'output', '%s: a program with the mistakes %s was rejected, but an executable was written' % (n, marks)
            names = [m for _, m in marks if m]
            es = errors(q['stdout'])
            if not es: return 'silent', '%s: exit code %d without an error message: %s' % (n, q['code'], tail(q['stdout']))
            if len(names) == len(marks) and not any(m in q['stdout'] for m in names): return 'unnamed', '%s: no diagnostic names any of %s: %s' % (n, names, tail(q['stdout']))
            if len(marks) == 1 and names and names[0] not in ' '.join(es): return 'unnamed', '%s: no error names %s: %s' % (n, names, tail(q['stdout']))
        return None

@prop
class P04(Prop):
    id = 'P04'
    cases = (1200, 12000)
    rule = ('a case is a generated program (valid with a known result, or with one mistake) compiled in 8 variants: declarations permuted within the units, shared declarations moved between units, units permuted on the command line, '
            'randomised work order, each with 1..6 threads under a seeded schedule; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        ne = r.choice([0, 0, 0, 1])
        g = project(r, tier, ne)
        js = {}
        for j in range(8):
            if j:
                for d in g.decls: r.shuffle(d)
                if r.random() < .3:          # all declarations of a unit in reverse, or a strict order by name
                    k = r.randrange(3)
                    for d in g.decls: (d.reverse() if k == 0 else d.sort() if k == 1 else d.sort(key=len))
                if r.random() < .5: g.scatter(r)
            t = g.texts(); names = list(t)
            if j and r.random() < .6: r.shuffle(names)
            tc = r.choice([1, 1, 2, 3, 6])
            cmd = compile_cmd(names, '-seed %d' % r.randint(1, 1 << 40) if r.random() < .5 else '', tc)
            js['s%d' % j] = job(t, cmd, sched=sched(r) if tc > 1 else None)
        return {'scenario': 'valid' if not ne else 'mistake', 'jobs': js, 'params': {'expected': g.expected() if not ne else None}}
    def check(self, case, run):
        exp = case['params']['expected']
        for n in case['jobs']:
            q = run(n)
            if q['status'] != 'exit': continue
            if exp is None:
                if q['code'] == 0: return 'accepted', '%s: a mistaken program is accepted in this order' % n
                continue
            if q['code'] != 0: return 'rejected', '%s: a valid program is rejected in this order: %s' % (n, tail(q['stdout']))
            e = q['files'].get('c:/work/a.exe')
            if e is None: return 'no-output', '%s: exit code 0 but no executable' % n
            z = run_exe(run, e)
            if z['status'] != 'exit': return 'program-' + z['status'], '%s: in this order the program ended with %s %s' % (n, z['status'], z['detail'][:200])
            if z['code'] & 0xffffffff != exp: return 'program-result', '%s: in this order the program returned %d, the source means %d' % (n, z['code'] & 0xffffffff, exp)
        return None

import props_fault
import props_hist
import props_bin
import props_link
import props_misc
import props_atomic, props_priv, props_data, props_main, props_seh
