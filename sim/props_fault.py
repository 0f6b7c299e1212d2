"""P07..P13: faults of the operating system, crashes, and equality of outputs."""
import random, re
import binfmt as B
from core import job, sched, get, put
from props import Prop, prop, project, compile_cmd, incs, run_exe, tail, diags, errors, outs, bad_end, sched_names
from gen import Gen

OUT = {'exe': ['a.exe', 'a.pdb'], 'exe_nd': ['a.exe'], 'dll': ['a.dll', 'a.pdb'], 'obj': ['a.obj'], 'pre': ['a.i'], 'ep': []}

def files_of(t): return ' '.join(x for x in t if x.endswith('.c'))

def cmd_of(mode, t, tc, extra=''):
    x = incs(t) + (' ' + extra if extra else '') + ' -thread_count %d' % tc
    f = files_of(t)
    return {'exe': 'hlc.exe %s -nostdlib -quiet -out a.exe%s' % (f, x), 'exe_nd': 'hlc.exe %s -nostdlib -quiet -nodebug -out a.exe%s' % (f, x), 'dll': 'hlc.exe %s -nostdlib -quiet -dll -entry _start -out a.dll%s' % (f, x),
            'obj': 'hlc.exe -obj %s -nostdlib -quiet -out a.obj%s' % (f, x), 'pre': 'hlc.exe %s -nostdlib -quiet -P -Fi a.i%s' % (f, x), 'ep': 'hlc.exe %s -nostdlib -quiet -EP%s' % (f, x)}[mode]

def command_files(r, t, cmd):
    """the files t and the command with most of its words moved to one or two command files"""
    w = []
    for x in cmd.split(' '): w[-1:] = [w[-1] + [x]] if w and len(w[-1]) == 1 and w[-1][0] in ('-out', '-I', '-l', '-Fi', '-entry', '-thread_count') else w[-1:] + [[x]]      # an option stays with its argument
    i = r.randrange(1, len(w) - 1); a, m, z = w[:i], w[i:-1], w[-1:]; t = dict(t); flat = lambda ws: [y for x in ws for y in x]
    def text(ws): x = ''.join(y + r.choice([' ', ' ', '\n', '\r\n', '\t', '  ']) for y in (('"%s"' % y if r.random() < .2 else y) for y in flat(ws))).rstrip(r.choice(['', '\n\r '])); return '\xff\xfe' + ''.join(c + '\0' for c in x) if r.random() < .3 else x
    if len(m) > 2 and r.random() < .3: j = r.randrange(1, len(m)); t['more.rsp'] = text(m[j:j + 2]); m = m[:j] + [['@more.rsp']] + m[j + 2:]
    t['args.rsp'] = text(m); return t, ' '.join(flat(a) + ['@args.rsp'] + flat(z))

def want(mode): return ['c:/work/' + x for x in OUT[mode]]

def calls(r):
    """[(kind, nth, thread, detail)] of the operating system calls of a run"""
    out = []
    for l in r['oslog'].split('\n'):
        x = l.split(' ', 3)
        if len(x) >= 3: out.append((x[0], int(x[1]), x[2], x[3] if len(x) > 3 else ''))
    return out

def small_project(r, tier, errs=0, opts=(), units=None):
    g = Gen(r.getrandbits(40), units or r.choice([1, 1, 2, 3, 4]), r.choice([2, 4, 8, 14] + ([30] if tier == 'thorough' else [])), opts).generate([r.choice(Gen.KINDS) for _ in range(errs)])
    if r.random() < .6: g.make_headers(r)
    return g

def same_or_reason(mode, q, b, tc, run, exp):
    """None if the outputs of the successful run q are complete, else (signature, message)"""
    for n in want(mode):
        if n not in q['files']: return 'missing', 'exit code 0, but %s was not written' % n
        if n not in b['files']: continue
        x, y = q['files'][n], b['files'][n]
        try:
            m = B.masked(n, x)
            if tc == 1:
                if m != B.masked(n, y): return 'content', 'exit code 0, but %s differs from the one of an undisturbed run (%d and %d bytes)' % (n, len(x), len(y))
            elif n.endswith('.pdb'): B.PDB(x).parse()
            elif n.endswith('.i'):
                if sorted(x.split(b'\n')) != sorted(y.split(b'\n')): return 'content', 'exit code 0, but %s has other lines than that of an undisturbed run' % n
        except B.Bad as e: return 'malformed', 'exit code 0, but %s is malformed: %s' % (n, e)
    if mode == 'ep':
        if b['stdout'] not in q['stdout']: return 'content', 'exit code 0, but the text on the standard output is incomplete'
    if mode[:3] in ('exe', 'dll') and exp is not None:
        e = want(mode)[0]
        z = run_exe(run, q['files'][e])
        if z['status'] != 'exit' or z['code'] & 0xffffffff != exp: return 'program', 'exit code 0, but the program ends with %s %d, not %d %s' % (z['status'], z['code'] & 0xffffffff, exp, z['detail'][:200])
        if mode in ('exe', 'dll'):
            d = B.PE(q['files'][e]).debug(); i = B.MSF(q['files']['c:/work/a.pdb']).info()
            if not d or d[0][1] != i[3] or d[0][2] != i[2]: return 'pair', 'exit code 0, but a.pdb does not belong to a.exe'
    return None

@prop
class P07(Prop):
    id = 'P07'
    cases = (2500, 40000)
    rule = ('a case is a generated valid program, an output mode (executable with or without debug information, library, object file, preprocessed file, preprocessed text on the standard output) and 6 runs with write-side faults at seeded calls, 1..4 threads; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'exe_nd', 'dll', 'obj', 'obj', 'pre', 'ep'])
        g = small_project(r, tier); t = g.texts()
        js = {'base': job(t, cmd_of(mode, t, 1))}
        s = self.run(js['base'])
        cs = calls(s); n = {k: max([c[1] for c in cs if c[0] == k] or [0]) for k in ('openw', 'write', 'stdout')}
        tot = sum(len(x) for x in s['files'].values())
        olds = r.random() < .5
        extra = []
        if olds:       # an older, usually longer, version of each output is there
            for o in want(mode): extra.append(['file', o + '\0' + 'old' * r.choice([1, 100, (len(s['files'].get(o, b'')) + 1000) // 3 + 1, 100000])])
        for j in range(6):
            tc = r.choice([1, 1, 2, 3, 4]); ff = []; ex = list(extra); oneof = r.random()
            if oneof < .12 and tot: ex.append(['disk', r.randint(0, tot)])
            elif oneof < .2 and want(mode): ff.append(('deny', 0, r.choice(want(mode))))
            elif oneof < .26 and want(mode):
                o = r.choice(want(mode)); ex = [x for x in ex if not x[1].startswith(o + '\0')] + [['file', o + '\0stale'], ['readonly', o]]
            elif oneof < .3 and mode in ('exe', 'dll'):
                o = 'c:/work/a.pdb'; ex = [x for x in ex if not x[1].startswith(o + '\0')] + [['dir', o]]
            else:
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    k = r.choice([k for k in n if n[k] and (k != 'stdout' or mode == 'ep' or r.random() < .3)] or ['write'])
                    i = r.randint(1, max(1, n[k]))
                    a = {'openw': ['sharing', 'denied', 'full'], 'write': ['full', 'io', 'short=%d', 'torn=%d', 'short=%d'], 'stdout': ['broken', 'short=%d']}[k]
                    ff.append((k, i, (lambda x: x % r.choice([0, 1, r.randrange(4096), r.randrange(1 << 20)]) if '%' in x else x)(r.choice(a))))
            js['s%d' % j] = job(t, cmd_of(mode, t, tc), *ex, sched=sched(r) if tc > 1 else None, faults=ff)
        return {'scenario': mode, 'jobs': js, 'params': {'mode': mode, 'expected': g.expected() if mode[:3] in ('exe', 'dll') else None}}
    def check(self, case, run):
        mode = case['params']['mode']; exp = case['params']['expected']
        b = run('base')
        if b['status'] != 'exit' or b['code']: return 'base', 'the undisturbed run ends with %s %d: %s' % (b['status'], b['code'], tail(b['stdout']))
        v = same_or_reason(mode, b, b, 1, run, exp)
        if v: return v[0], 'without a fault: ' + v[1]
        for n in sched_names(case):
            q = run(n); f = q['faults']; c = get(case['jobs'][n], 'cmd')
            tc = int(c.rsplit(' ', 1)[1]); fl = '%s (faults %s)' % (n, (get(case['jobs'][n], 'faults') or '').split('\n')[:-1] or 'disk %s' % get(case['jobs'][n], 'disk'))
            if q['status'] != 'exit': return q['status'], '%s: %s' % (fl, bad_end(q))
            run.probe('reported' if q['code'] else 'harmless')
            if q['code'] == 0:
                v = same_or_reason(mode, q, b, tc, run, exp)
                if v: return v[0], '%s: %s' % (fl, v[1])
            else:
                disturbed = f or any(k in ('readonly', 'dir') and v.startswith('c:/work/') for k, v in case['jobs'][n])
                if not disturbed: return 'spurious', '%s: no fault happened, exit code %d: %s' % (n, q['code'], tail(q['stdout']))
                if not q['stdout'].strip() and not any(k.startswith('stdout') for k in f): return 'silent', '%s: exit code %d without a message' % (fl, q['code'])
        return None

# ---- P08 ------------------------------------------------------------------------------------------------------------
def lib_user(g, r):
    """lets the program call into kernel32 through an import library"""
    a, b = r.randint(1, 3000), r.randint(1, 300); c = r.randint(1, 50)
    u = r.randrange(g.nu)
    g.put('__declspec(dllimport) int __stdcall MulDiv(int, int, int);', u)
    how = r.choice(['pragma', 'cmd'])
    if how == 'pragma': g.macrotext[r.randrange(g.nu)].append('#pragma comment(lib, "kernel32.lib")')
    g.put('unsigned lib_probe(void){ return (unsigned)MulDiv(%d, %d, %d); }' % (a, b, c), r.randrange(g.nu))
    return how, (a * b + c // 2) // c

INPUTS = re.compile(r'(?i)^c:[/\\](work|hlc|sdk)[/\\]')

@prop
class P08(Prop):
    id = 'P08'
    cases = (2500, 40000)
    rule = ('a case is a generated valid program with shared headers (sometimes a second header of the same name in a later include directory) and import libraries, compiled in 7 runs with read-side faults at seeded calls, 1..4 threads; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'obj', 'pre'])
        g = small_project(r, tier)
        exp = None; extra = ''
        if mode == 'exe' and r.random() < .5:
            how, v = lib_user(g, r)
            g.decls = [[re.sub(r'return \(int\)h;', 'return (int)(h * 79 + lib_probe());', d) if d.startswith('int _start') else d for d in ds] for ds in g.decls]
            exp = (g.expected() * 79 + v) & 0xffffffff
            if how == 'cmd': extra = '-l kernel32'
        elif mode == 'exe': exp = g.expected()
        trap = r.random() < .45
        if trap:
            for h in g.hdr: h['dir'] = r.choice([h['dir'], 'inc/', 'inc/deep/'])
        t = g.texts()
        # a trap: another header of the same name further down the search path
        shadows = []
        if trap:
            for h in sorted([x for x in t if x.endswith('.h')], key=lambda x: '/' not in x)[:2]:
                if r.random() < .7:
                    n = 'shadow/' + h.rsplit('/', 1)[-1]
                    t[n] = t[h].replace('#pragma once', '#pragma once\n#define SHADOW 1') if r.random() < .5 else re.sub(r'\b(\d+)\b', lambda m: str(int(m.group(1)) ^ 4), t[h]); shadows.append(n)
            if shadows: t = dict([(k, v) for k, v in t.items() if not k.startswith('shadow/')] + [(k, v) for k, v in t.items() if k.startswith('shadow/')])
        ix = incs([x for x in t if not x.startswith('shadow/')]); cmdx = (ix + ' -I shadow' if shadows else ix)
        c0 = cmd_of(mode, [x for x in t if x.endswith('.c')], 1, (cmdx + ' ' + extra).strip())
        if r.random() < .25: t, c0 = command_files(r, t, c0)
        def cmd(tc): return c0[:-1] + str(tc)
        js = {'base': job(t, cmd(1))}
        s = self.run(js['base'])
        cs = [c for c in calls(s) if c[0] in ('open', 'read', 'fileinfo', 'findfirst', 'attr')]
        mine = [c for c in cs if c[0] != 'attr' and INPUTS.match(c[3])]
        for j in range(7):
            tc = r.choice([1, 1, 2, 3, 4]); ff = []
            for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
                c = r.choice(mine) if mine else ('open', 1, '', '')
                if r.random() < .5:      # prefer files of the program over those of the system
                    w = [x for x in mine if '/work/' in x[3].lower()]
                    if w: c = r.choice(w)
                if shadows and r.random() < .3:
                    w = [x for x in mine if x[0] == 'open' and any(x[3].lower().endswith('/' + z[7:]) for z in shadows)]
                    if w: c = r.choice(w)
                a = {'open': ['sharing', 'denied'], 'read': ['io', 'short=%d' % r.choice([0, 1, r.randrange(1 << 20)])], 'fileinfo': ['io'], 'findfirst': ['io']}[c[0]]
                ff.append((c[0], c[1], r.choice(a)))
            if r.random() < .15: ff = [('deny', 0, r.choice([x for x in t if not x.startswith('shadow/')]))]
            js['s%d' % j] = job(t, cmd(tc), sched=sched(r) if tc > 1 else None, faults=ff)
        return {'scenario': mode, 'jobs': js, 'params': {'mode': mode, 'expected': exp, 'shadow': bool(shadows)}}
    def check(self, case, run):
        p = case['params']; mode = p['mode']
        b = run('base')
        if b['status'] != 'exit' or b['code']: return 'base', 'the undisturbed run ends with %s %d: %s' % (b['status'], b['code'], tail(b['stdout']))
        v = same_or_reason(mode, b, b, 1, run, p['expected'])
        if v: return v[0], 'without a fault: ' + v[1]
        for n in sched_names(case):
            q = run(n); f = q['faults']; c = get(case['jobs'][n], 'cmd'); tc = int(c.rsplit(' ', 1)[1])
            fl = '%s (faults %s)' % (n, (get(case['jobs'][n], 'faults') or '').split('\n')[:-1])
            if q['status'] != 'exit': return q['status'], '%s: %s' % (fl, bad_end(q))
            run.probe('reported' if q['code'] else 'harmless')
            if q['code'] == 0:
                v = same_or_reason(mode, q, b, tc, run, p['expected'])
                if v: return v[0], '%s: %s' % (fl, v[1])
            else:
                if not f: return 'spurious', '%s: no fault happened, exit code %d: %s' % (n, q['code'], tail(q['stdout']))
                if not q['stdout'].strip(): return 'silent', '%s: exit code %d without a message' % (fl, q['code'])
                names = {m.group(0).lower() for m in re.finditer(r'[\w.]+\.(c|h|lib|rsp)\b', ' '.join(fault_files(q, case['jobs'][n])))}
                if names and not any(x in q['stdout'].lower() for x in names): return 'unnamed', '%s: exit code %d, but no message names any of %s: %s' % (fl, q['code'], sorted(names), tail(q['stdout']))
        return None

def fault_files(q, jb):
    """files hit by the faults of a run"""
    fs = [l.split(' ') for l in (get(jb, 'faults') or '').split('\n') if l]
    m = {(k, n): d for k, n, t, d in calls(q)}
    return [m.get((x[0], int(x[1])), '') if x[0] != 'deny' else x[2] for x in fs]

# ---- P09 ------------------------------------------------------------------------------------------------------------
@prop
class P09(Prop):
    id = 'P09'
    cases = (2500, 40000)
    rule = ('a case is a generated program that is rejected (1..3 mistakes out of 80 kinds, sometimes one that only the linking step can see) or whose inputs fail to be read, compiled over the outputs of an earlier build in 6 runs, 1..6 threads; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'dll', 'obj', 'exe_nd'])
        ne = r.choice([0, 0, 1, 1, 2, 3])
        g = small_project(r, tier, ne, units=r.choice([1, 2, 3, 5]))
        t = g.texts()
        old = [['file', o + '\0' + 'the output of an earlier build ' * r.choice([1, 40, 4000])] for o in want(mode)]
        if r.random() < .3: old.append(['file', 'C:/work/notes.txt\0keep'])
        js = {'base': job(t, cmd_of(mode, t, 1), *old)}
        s = self.run(js['base'])
        mine = [c for c in calls(s) if c[0] in ('open', 'read', 'fileinfo') and '/work/' in c[3].lower()]
        for j in range(6):
            tc = r.choice([1, 2, 3, 4, 6]); ff = []
            if (not ne or r.random() < .3) and mine:
                for _ in range(r.choice([1, 1, 2])):
                    c = r.choice(mine); ff.append((c[0], c[1], r.choice({'open': ['sharing', 'denied'], 'read': ['io', 'short=%d' % r.randrange(1 << 16)], 'fileinfo': ['io']}[c[0]])))
            js['s%d' % j] = job(t, cmd_of(mode, t, tc), *old, sched=sched(r) if tc > 1 else None, faults=ff)
        return {'scenario': '%s, %s' % (mode, 'mistakes' if ne else 'read faults'), 'jobs': js, 'params': {'mode': mode, 'bad': bool([m for m in g.marks if not (mode in ('obj',) and m[0] in Gen.LINK_ONLY)])}}
    def check(self, case, run):
        mode = case['params']['mode']; w = set(want(mode))
        for n in case['jobs']:
            q = run(n)
            fl = '%s (faults %s)' % (n, (get(case['jobs'][n], 'faults') or '').split('\n')[:-1])
            if q['status'] != 'exit': return q['status'], '%s: %s' % (fl, bad_end(q))
            foreign = sorted(set(q['files']) - w)
            if foreign or q['removed'].strip(): return 'foreign', '%s: files that are no outputs were changed: %s %s' % (fl, foreign, q['removed'].split())
            if q['code'] and q['files']: return 'touched', '%s: exit code %d, but %s changed: %s' % (fl, q['code'], sorted(q['files']), tail(q['stdout']))
            if q['code'] == 0 and set(q['files']) != w: return 'missing', '%s: exit code 0, but only %s were written' % (fl, sorted(q['files']))
            if q['code'] == 0 and case['params']['bad'] : return 'accepted', '%s: a program with a mistake was accepted' % fl
            run.probe('rejected' if q['code'] else 'accepted')
        return None

# ---- P10 ------------------------------------------------------------------------------------------------------------
RES = ('reserve', 'commit', 'galloc', 'malloc', 'thread', 'event', 'findfirst', 'findnext', 'attr', 'getcwd', 'regopen', 'regquery', 'regenum', 'readcon')

@prop
class P10(Prop):
    id = 'P10'
    cases = (2500, 40000)
    rule = ('a case is a generated valid program (sometimes one with a mistake, sometimes one that names its sources by a wildcard), an output mode and 8 runs with failing reservations, allocations, thread and event creations, directory searches and registry queries '
            '(single ones, everything from some call on, or a limit of the memory that can be committed), 1..6 threads; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'exe_nd', 'dll', 'obj', 'obj', 'pre', 'ep'])
        ne = 1 if r.random() < .2 and mode[:3] in ('exe', 'dll') else 0
        g = small_project(r, tier, ne, opts=()); t = g.texts()
        wild = r.random() < .2 and not ne; q = random.Random(r.getrandbits(32)); c0 = None; rsp = q.random() < .2
        lib = r.random() < .3 and not ne and mode in ('exe', 'exe_nd', 'dll')
        exp = g.expected() if mode[:3] in ('exe', 'dll') and not ne else None
        def cmd(tc):
            if c0: return c0[:-1] + str(tc)
            c = cmd_of(mode, t, tc)
            if wild: c = c.replace(files_of(t), 'u*.c')
            if lib: c = c.replace(' -nostdlib', '')
            return c
        if rsp: t, c0 = command_files(q, t, cmd(1))
        js = {'base': job(t, cmd(1))}
        s = self.run(js['base'])
        n = {}
        for c in calls(s): n[c[0]] = max(n.get(c[0], 0), c[1])
        ks = [k for k in RES if n.get(k)] + ['thread', 'thread']
        total = s['stats'].get('committed', 0)
        for j in range(8):
            tc = r.choice([1, 2, 2, 3, 4, 6]); ff = []; ex = []
            x = r.random()
            if x < .15 and total: ex.append(['memlimit', r.randrange(4096, max(8192, total * 3 // 2))])
            elif x < .3:
                k = r.choice(ks); ff.append(('from:' + k, r.randint(1, n.get(k, 3) + (3 * tc if k in ('commit', 'thread') else 0)), 'io'))
            else:
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    k = r.choice(ks); ff.append((k, r.randint(1, n.get(k, 3) + (3 * tc if k in ('commit', 'thread') else 0)), 'io'))
            js['s%d' % j] = job(t, cmd(tc), *ex, sched=sched(r) if tc > 1 else None, faults=ff)
        return {'scenario': mode, 'jobs': js, 'params': {'mode': mode, 'expected': exp, 'errors': ne}}
    def check(self, case, run):
        p = case['params']; mode = p['mode']
        b = run('base')
        if b['status'] != 'exit' or (b['code'] != 0) != bool(p['errors']): return 'base', 'the undisturbed run ends with %s %d: %s' % (b['status'], b['code'], tail(b['stdout']))
        for n in sched_names(case):
            q = run(n); f = q['faults']; c = get(case['jobs'][n], 'cmd'); tc = int(c.rsplit(' ', 1)[1])
            fl = '%s (faults %s)' % (n, (get(case['jobs'][n], 'faults') or '').split('\n')[:-1] or 'memory limit %s' % get(case['jobs'][n], 'memlimit'))
            if q['status'] != 'exit': return q['status'], '%s: %s' % (fl, bad_end(q))
            run.probe('reported' if q['code'] else 'harmless')
            if q['code'] == 0:
                if p['errors']: return 'accepted', '%s: a program with a mistake is accepted' % fl
                v = same_or_reason(mode, q, b, tc, run, p['expected'])
                if v: return v[0], '%s: %s' % (fl, v[1])
            else:
                if not f and not p['errors']: return 'spurious', '%s: no fault happened, exit code %d: %s' % (n, q['code'], tail(q['stdout']))
                if not (q['stdout'] + q.get('stderr', '')).strip(): return 'silent', '%s: exit code %d without a message' % (fl, q['code'])
        return None
