"""P16: object files, judged by reading them, by linking them with an independent linker and by running the result."""
from collections import Counter
import os, random, re, shutil, subprocess, tempfile
import binfmt as B
import build as hb
from core import job, sched, SimError
from props import Prop, prop, run_exe, tail, bad_end
from gensplit import Split

HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = ['clang', '--target=x86_64-pc-windows-msvc', '-O0', '-w', '-ffreestanding', '-fms-extensions', '-c']
LINK = ['lld-link', '/entry:_start', '/nodefaultlib', '/subsystem:console', '/threads:1', '/alternatename:_fltused=_start', '/include:_tls_used', '/Brepro']

def tool(n):
    for x in (n, n + '-18'):
        p = shutil.which(x)
        if p: return p
    raise SimError('%s is not installed' % n)

def call(cmd, d, inp=None):
    p = subprocess.run([tool(cmd[0])] + cmd[1:], cwd=d, input=inp, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr

_tls = None
def tlsobj():
    """the thread-local storage directory a C run-time library provides"""
    global _tls
    if _tls is None:
        d = tempfile.mkdtemp(prefix='hsim-tls-')
        rc, o = call(CLANG + [os.path.join(HERE, 'tlsobj.c'), '-o', 'tls.obj'], d)
        if rc: raise SimError('clang cannot compile the helper object: %s' % o[:300])
        _tls = open(d + '/tls.obj', 'rb').read(); shutil.rmtree(d)
    return _tls

@prop
class P16(Prop):
    id = 'P16'
    cases = (2500, 30000)
    drop_jobs = True
    rule = ('a case is a generated program of 1..6 units that share one header, split into 1..4 object files; every object is compiled by one thread and under 3 seeded schedules with 2..6 threads, some objects come from clang instead; '
            'each set of objects is linked by lld-link and run; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        huge = r.choice(['funcs', 'code', 'data', 'data', 'tls', 'any']) if r.random() < .01 else None
        g = Split(r, tier, r.choice([1, 2]), 1, huge) if huge else Split(r, tier); t = g.texts(); gs = g.groups(); js = {}; part = []
        for i, us in enumerate(gs):
            files = us[:]
            if r.random() < .3: files.reverse()
            cmd = 'hlc.exe -obj %s -nostdlib -quiet -out p%d.obj%s -thread_count %%d' % (' '.join(files), i, r.choice(['', '', ' -nodebug']))
            js['b%d' % i] = job(t, cmd % 1)
            for j in range(1 if huge else 3):
                if j == 0 or r.random() < .6:
                    js['s%dg%d' % (j, i)] = job(t, cmd % r.choice([1, 2, 2, 3, 4, 6]), sched=sched(r) if not huge else [('seed', r.getrandbits(48)), ('mode', 1), ('mean', r.choice([400, 2000])), ('budget', 8000000000)])
            own = {int(u[1:-2]) for u in us}
            used = set().union(*(g.uses[u] for u in own)) | (set(g.hdruse))
            part.append({'defs': sorted(n for n, u in g.defs.items() if u in own), 'refs': sorted(n for n in used if n in g.defs and g.defs[n] not in own), 'any': sorted(g.anys), 'obj': 'p%d.obj' % i,
                         'clang': [u for u in us] if len(us) == 1 and r.random() < .35 and not own & g.__dict__.get('inner', set()) else None})
        if all(p['clang'] for p in part): part[0]['clang'] = None
        return {'scenario': 'huge ' + huge if huge else '%d objects' % len(gs), 'jobs': js, 'params': {'part': part, 'texts': t, 'debug': r.random() < .4, 'alldefs': sorted(g.defs), 'forward': {'u%d.c' % u: g.forward(u) for u in range(g.nu)}, 'expected': g.expected()}}
    def check(self, case, run):
        p = case['params']; part = p['part']
        d = tempfile.mkdtemp(prefix='hsim-link-')
        try:
            for k, v in p['texts'].items(): open(os.path.join(d, k), 'w').write(v)
            open(d + '/tls.obj', 'wb').write(tlsobj())
            for i, g in enumerate(part):
                if g['clang']:
                    u = g['clang'][0]; src = p['texts'][u].replace('#include "all.h"\n', '#include "all.h"\n' + p['forward'][u], 1)
                    rc, o = call(CLANG + ['-I', d, '-x', 'c', '-', '-o', 'c%d.obj' % i], d, src)
                    if rc: raise SimError('clang rejects a generated unit: %s' % o[:500])
                    run.probe('objects compiled by clang')
            base = {}
            for j in [-1] + sorted({int(n[1:n.index('g')]) for n in case['jobs'] if n[0] == 's'}):
                objs = ['tls.obj']; where = []
                for i, g in enumerate(part):
                    n = 's%dg%d' % (j, i)
                    if j < 0 or n not in case['jobs']: n = 'b%d' % i
                    if g['clang'] and n[0] == 'b' and j >= 0 or (g['clang'] and j == 0): objs.append('c%d.obj' % i); continue
                    if n not in base:
                        q = run(n)
                        if q['status'] != 'exit': return q['status'], '%s: %s' % (n, bad_end(q))
                        if q['code']: return 'rejected', '%s: a valid program was rejected: %s' % (n, tail(q['stdout']))
                        data = q['files'].get('c:/work/' + g['obj'])
                        if data is None: return 'missing', '%s: exit code 0, but no object file' % n
                        v = self.symbols(p, g, data, run)
                        if v: return v[0], '%s: %s' % (n, v[1])
                        open('%s/%s.obj' % (d, n), 'wb').write(data)
                        if n[0] == 'b': base[n] = 1
                    objs.append(n + '.obj'); where.append(n)
                rc, o = call(LINK + ['/out:a.exe'] + (['/debug', '/pdb:a.pdb'] if p['debug'] else []) + objs, d)
                if rc: return 'link', '%s: the objects do not link: %s' % (' '.join(where), o.replace('\n', ' | ')[:400])
                run.probe('links')
                try: run.probe('unwind entries', len(B.PE(open(d + '/a.exe', 'rb').read()).unwind()))
                except B.Bad as e: return 'unwind', '%s: the linked program cannot be unwound: %s' % (' '.join(where), e)
                if p['debug']:
                    v = self.debug(p, open(d + '/a.pdb', 'rb').read(), run)
                    if v: return v[0], '%s: %s' % (' '.join(where), v[1])
                z = run_exe(run, open(d + '/a.exe', 'rb').read())
                if z['status'] != 'exit': return 'program-' + z['status'], '%s: the linked program ended with %s %s' % (' '.join(where), z['status'], z['detail'][:200])
                if z['code'] & 0xffffffff != p['expected']: return 'program-result', '%s: the linked program returned %d, the source means %d' % (' '.join(where), z['code'] & 0xffffffff, p['expected'])
            return None
        finally: shutil.rmtree(d, ignore_errors=True)
    def symbols(self, p, g, data, run):
        try: o = B.COFF(data)
        except B.Bad as e: return 'malformed', str(e)
        df, un = Counter(o.defined() + [x[0] for x in o.common()]), Counter(o.undefined())
        run.probe('symbols read', len(o.symbols))
        for n in g['defs'] + g['any']:
            if df[n] != 1: return 'definition', '%s is defined %d times in %s' % (n, df[n], g['obj'])
        other = set(p['alldefs']) - set(g['defs'])
        foreign = sorted(n for n in df if n in other)
        if foreign: return 'definition', '%s is defined in %s, but its definition is in another unit' % (foreign[0], g['obj'])
        for n in g['refs']:
            if un[n] != 1: return 'reference', '%s is used and not defined in %s, and there are %d references to it' % (n, g['obj'], un[n])
        both = sorted(n for n in un if n in df)
        if both: return 'reference', '%s is both defined and undefined in %s' % (both[0], g['obj'])
        return None
    def debug(self, p, data, run):
        try: pdb = B.PDB(data).parse()
        except B.Bad as e: return 'debug', 'the debug information of the linked program is malformed: %s' % e
        for n in p['alldefs']:
            a = pdb.publics.get(n)
            if not a: continue
            for x in pdb.procs.get(n, []) + [y for y in pdb.data.get(n, []) if y[2] < 0x1112]:
                run.probe('addresses compared')
                if x[0] != a[0]: return 'debug', '%s is at %x, the debug information of the object has it at %x' % (n, a[0], x[0])
            for y in pdb.data.get(n, []):
                if not y[2] & 1: return 'debug', '%s is external, the debug information of the object calls it local (%x)' % (n, y[2])
            if n in pdb.procs and len(pdb.procs[n]) != 1: return 'debug', '%s is listed %d times' % (n, len(pdb.procs[n]))
        return None

# ---- P18 --------------------------------------------------------------------------------------------------------------
M32 = 0xffffffff
MAGIC = 0x7ab1e0fadd2e5718

class Directives:
    """a program held together by #pragma comment, dllimport, dllexport and alternate names, and a model of its result"""
    def __init__(self, r, mode, tier):
        self.r, self.mode = r, mode
        self.nu = nu = r.choice([1, 2, 3, 4, 6]); self.decl = [[] for _ in range(nu)]; self.top = [[] for _ in range(nu)]
        self.libs = []; self.flags = []; self.imports = {}; self.alts = []; self.exports = {}; self.objs = {}; self.files = {}
        nl = r.choice([1, 2, 3, 5]); n = 0; names = []
        for k in range(nl):
            dll = r.choice(['lib%d.dll' % k, 'lib%d.dll' % k, 'Another-Name%d.DLL' % k, 'lib0.dll']); fs = []
            for _ in range(r.randint(1, 8)): fs.append(('fn%d%s' % (n, r.choice(['', '_long_name_of_a_function'])), r.randint(0, 200), r.random() < .2)); n += 1
            ob = [('ob%d_%d%s' % (k, i, r.choice(['', '_long_name_of_data'])), r.getrandbits(32)) for i in range(r.choice([0, 0, 1, 2]))]
            self.libs.append((r.choice(['lib%d', 'dir/lib%d', 'Lib With Space%d']) % k if r.random() < .3 else 'lib%d' % k, dll, fs, ob))
        for k in range(r.choice([0, 1, 2])):        # libraries nobody asks for
            fs = [x for l in self.libs for x in l[2] if r.random() < .5] + [('other%d_%d' % (k, i), i, False) for i in range(2)]
            self.files['unused%d.lib' % k] = B.implib('unused%d.dll' % k, [(a, h, False) for a, h, o in fs])
        seen = {}
        for nm, dll, fs, ob in self.libs:
            fs[:] = [(a, (h if not o else 1 + len(seen)), o) for a, h, o in fs if not seen.update({a: 1})]
            self.files[nm + '.lib'] = B.implib(dll, fs, [(a, v.to_bytes(4, 'little')) for a, v in ob])
            at = self.r.choice(['cmd', 'one', 'some', 'some', 'all'])
            us = [] if at == 'cmd' else [r.randrange(nu)] if at == 'one' else range(nu) if at == 'all' else [u for u in range(nu) if r.random() < .6] or [0]
            if at == 'cmd' or r.random() < .1: self.flags.append('-l "%s"' % nm if ' ' in nm else '-l %s' % nm)
            for u in us:
                for _ in range(r.choice([1, 1, 1, 2])): self.top[u].append('#pragma %scomment(%slib, "%s"%s)' % ((' ', ' ', nm, ' ') if r.random() < .2 else ('', '', nm + r.choice(['', '.lib']), '')))
        self.fn = [(a, B.stub_value(dll, a, h if o else None), dll, '#%d' % h if o else a) for nm, dll, fs, ob in self.libs for a, h, o in fs]
        self.ob = [(a, v) for nm, dll, fs, ob in self.libs for a, v in ob]
        real = list(self.fn)
        for k in range(r.choice([0, 0, 1, 2, 4])):
            f = r.choice(real); self.alts.append(('alt%d' % k, f[0]))
            own = r.getrandbits(32) if r.random() < .3 else None
            if own is not None: self.decl[r.randrange(nu)].append('unsigned alt%d(unsigned x){ return x + %du; }' % (k, own)); self.fn.append(('alt%d' % k, own, None, None))
            else: self.fn.append(('alt%d' % k, f[1], f[2], f[3]))
            for u in ([r.randrange(nu)] if r.random() < .4 else [u for u in range(nu) if r.random() < .7] or [0]):
                for _ in range(r.choice([1, 1, 2])): self.top[u].append('#pragma comment(linker, "%sALTERNATENAME:alt%d=%s")' % ('/', k, f[0]))
        h = self.value(0, 17, 'return', main=True)
        if mode == 'dll': self.exported()
        self.expected = h
        for d in self.decl: r.shuffle(d)
        for d in self.top: r.shuffle(d)
        tx = {'u%d.c' % u: '\n'.join(self.top[u] + self.decl[u]) + '\n' for u in range(nu)}
        if r.random() < .4:     # everything one asks for comes from a header
            hd = [l for t in self.top for l in t]; k = r.choice([0, 0, 1]); tx['all.h'] = ('#pragma once\n' if k else '') + '\n'.join(hd) + '\n'
            for u in range(nu): tx['u%d.c' % u] = '#include "all.h"\n' * r.choice([1, 1, 2]) + '\n'.join(self.decl[u]) + '\n'
        if r.random() < .3:     # directives in the middle and at the end
            for u in range(nu):
                if 'u%d.c' % u in tx and 'all.h' not in tx: tx['u%d.c' % u] = '\n'.join(self.decl[u] + self.top[u]) + '\n'
        self.texts = dict(tx, **{k: v for k, v in self.files.items()})
    def need(self, u, f):
        """unit u declares the library function f; it is used"""
        r = self.r; d = 'unsigned %s(unsigned);' % f[0]; own = f[2] is None
        if r.random() < .5 or not any(d in x and '{' not in x for x in self.decl[u]): self.decl[u].insert(0, r.choice(['', 'extern '] if own or f[0].startswith('alt') else ['__declspec(dllimport) ', '__declspec(dllimport) ', '', 'extern ']) + d)
        if not own: self.imports.setdefault(f[2].lower(), {}).setdefault(f[3], set()).add(f[0])
    def value(self, u, h0, ret, main=False):
        """every unit gets functions that call library functions; _start calls all of them"""
        r = self.r; fns = []
        for k in range(r.choice([1, 3, 8])):
            u = r.randrange(self.nu); C = []; add = []; 
            for _ in range(r.choice([1, 2, 4])):
                f = r.choice(self.fn); form = r.choice(['call', 'call', 'call', 'ptr', 'tab'])
                if r.random() < .2 and f[2] is not None and not f[0].startswith('alt'):     # declared inside of the function that uses it
                    self.imports.setdefault(f[2].lower(), {}).setdefault(f[3], set()).add(f[0]); di = '__declspec(dllimport) '
                    if r.random() < .3: self.need(r.randrange(self.nu), f); di = r.choice(['', 'extern '])       # has to be declared at file scope somewhere
                    C.append('{ %sunsigned %s(unsigned); %s }' % (di, f[0], r.choice(['h = %s(h) * 3u;', 'unsigned (*p)(unsigned) = %s; h = p(h) * 3u;', 'unsigned (*p)(unsigned) = h ? &%s : 0; h = p ? p(h) * 3u : (0, %s)(h) * 3u;']).replace('%s', f[0])))
                    add.append(f[1]); continue
                self.need(u, f)
                if form == 'call': C.append('h = %s(h) * 3u;' % f[0])
                elif form == 'ptr': C.append('{ unsigned (*p)(unsigned) = %s%s; h = p(h) * 3u; }' % (r.choice(['', '&']), f[0]))
                else: self.n = getattr(self, 'n', 0) + 1; self.decl[u].append('unsigned (*tab%d[2])(unsigned) = {0, %s};' % (self.n, f[0])); C.append('h = tab%d[1](h) * 3u;' % self.n)
                add.append(f[1])
                if self.ob and r.random() < .3: o = r.choice(self.ob); self.decl[u].insert(0, 'extern const unsigned %s;' % o[0]); C.append('h ^= %s;' % o[0]); add.append(-1 - o[1])
            if r.random() < .3: self.decl[u].append('unsigned unused_%d(unsigned h){ %s return h; }' % (k, ' '.join(C)))
            self.decl[u].append('unsigned own%d(unsigned h){ %s return h; }' % (k, ' '.join(C))); fns.append((k, add))
        h = h0; C = []
        for k, add in fns:
            C.append('h = own%d(h + %du);' % (k, k)); h = (h + k) & M32
            for x in add: h = (h + x) * 3 & M32 if x >= 0 else h ^ (-1 - x)
        u = r.randrange(self.nu); self.entry = u
        for k, add in fns: self.decl[u].append('unsigned own%d(unsigned h);' % k)
        extra = 'h += exp_tab.m != %dull;' % MAGIC if self.mode == 'dll' else ''
        self.decl[u].append('int _start(void){ unsigned h = %du; %s %s return (int)h; }' % (h0, ' '.join(C), extra))
        return h
    def exported(self):
        r = self.r; tab = []
        for k in range(r.choice([0, 1, 3, 8])):
            n = 'ex%d%s' % (k, r.choice(['', '_long_name_of_an_export'])); e = '__declspec(dllexport) '; out = r.random() < .75
            if r.random() < .5: d = ['extern unsigned %s;' % n, '%sextern unsigned %s;' % (e if out else '', n)] + ['unsigned %s;' % n] * r.choice([1, 2]) if r.random() < .6 else ['%sunsigned %s = %du;' % (e if out else '', n, k), 'extern unsigned %s;' % n]; tab.append((n, '&' + n))
            else: d = ['unsigned %s(void);' % n, '%sunsigned %s(void);' % (e if out else '', n), 'unsigned %s(void){ return %d; }' % (n, k)] if r.random() < .6 else ['%sunsigned %s(void){ return %d; }' % (e if out else '', n, k)]; tab.append((n, n))
            for x in d * r.choice([1, 1, 1]) + ([d[0]] if r.random() < .3 and ('extern' in d[0] or '{' not in d[0]) and '=' not in d[0] else []): self.decl[r.randrange(self.nu)].append(x)
            self.exports[n] = out
        u = self.entry
        for n, x in tab: self.decl[u].append('extern unsigned %s;' % n if x[0] == '&' else 'unsigned %s(void);' % n)
        self.decl[u].append('struct { unsigned long long m; void *p[%d]; } exp_tab = { %dull, { %s } };' % (len(tab) + 1, MAGIC, ', '.join(['0'] + ['(void *)' + x for n, x in tab])))
        self.tab = [n for n, x in tab]

@prop
class P18(Prop):
    id = 'P18'
    cases = (6000, 80000)
    rule = ('a case is a generated program of 1..6 units that name libraries, alternate names, imports and exports in several places, compiled to an executable, a library or an object file (then linked by lld-link) in 5 runs with 1..6 threads under seeded schedules and directory orders; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'dll', 'dll', 'obj', 'missing'])
        g = Directives(r, mode, tier); t = dict(g.texts); miss = None
        if mode == 'missing':
            k = r.choice(['function', 'library', 'cycle']); u = r.randrange(g.nu); x = t['u%d.c' % u]
            if k == 'library': miss = 'nowhere'; t['u%d.c' % u] = '#pragma comment(lib, "nowhere")\n' + x
            else:
                miss = 'absent_function'; at = r.choice(['u%d.c' % w for w in range(g.nu)])
                t[at] += '%sunsigned absent_function(unsigned);\n' % r.choice(['', '__declspec(dllimport) ']); t['u%d.c' % g.entry] = t['u%d.c' % g.entry].replace('int _start(void){', 'unsigned absent_function(unsigned);\nint _start(void){ absent_function(1);' )
                if k == 'cycle': t['u%d.c' % u] = '#pragma comment(linker, "/ALTERNATENAME:absent_function=absent_2")\n' + t['u%d.c' % u]; w = r.randrange(g.nu); t['u%d.c' % w] = '#pragma comment(linker, "/ALTERNATENAME:absent_2=absent_function")\n' + t['u%d.c' % w]
        js = {}
        for j in range(5):
            tc = r.choice([1, 2, 2, 3, 4, 6]); us = [x for x in t if x.endswith('.c')]
            if r.random() < .3: r.shuffle(us)
            f = ' '.join(us) + ' -nostdlib -quiet ' + ' '.join(g.flags)
            cmd = {'exe': 'hlc.exe %s -out a.exe', 'missing': 'hlc.exe %s -out a.exe', 'dll': 'hlc.exe %s -dll -entry _start -out a.dll', 'obj': 'hlc.exe -obj %s -out a.obj'}[mode] % f
            js['s%d' % j] = job(t, cmd + ' -thread_count %d' % tc, sched=sched(r) if tc > 1 else None)
        return {'scenario': mode, 'jobs': js, 'params': {'mode': mode, 'miss': miss, 'expected': g.expected, 'imports': {d: {n: sorted(s) for n, s in x.items()} for d, x in g.imports.items()}, 'exports': g.exports, 'tab': getattr(g, 'tab', []),
                'libs': sorted({l[0] for l in g.libs if any('"%s' % l[0] in x for d in g.top for x in d) or '-l %s' % l[0] in g.flags or '-l "%s"' % l[0] in g.flags}), 'alts': [list(x) for x in g.alts], 'files': {k: v.decode('latin-1') for k, v in g.files.items()} if mode == 'obj' else {}}}
    def check(self, case, run):
        p = case['params']; mode = p['mode']
        for n in case['jobs']:
            q = run(n)
            if q['status'] != 'exit': return q['status'], '%s: %s' % (n, bad_end(q))
            if mode == 'missing':
                if q['code'] == 0: return 'accepted', '%s: %s does not exist, and the program is accepted' % (n, p['miss'])
                if p['miss'] not in q['stdout'] or 'Error' not in q['stdout']: return 'message', '%s: %s does not exist, and is not mentioned: %s' % (n, p['miss'], tail(q['stdout']))
                continue
            if q['code']: return 'rejected', '%s: a valid program was rejected: %s' % (n, tail(q['stdout']))
            name = 'a.' + mode; data = q['files'].get('c:/work/' + name)
            if data is None: return 'missing', '%s: exit code 0, but no %s' % (n, name)
            try: v = self.obj(p, data, run) if mode == 'obj' else self.image(p, data, run)
            except B.Bad as e: return 'malformed', '%s: %s' % (n, e)
            if v: return v[0], '%s: %s' % (n, v[1])
        return None
    def runs(self, p, data, run):
        z = run_exe(run, data, impstub=1)
        if z['status'] != 'exit': return 'program-' + z['status'], 'the program ended with %s %s' % (z['status'], z['detail'][:200])
        if z['code'] & M32 != p['expected']: return 'program-result', 'the program returned %d, the source means %d' % (z['code'] & M32, p['expected'])
    def image(self, p, data, run):
        pe = B.PE(data); im = pe.imports(); dl = [d.lower() for d, f in im]
        for d in dl:
            if dl.count(d) != 1: return 'imports', '%s has %d entries in the import table' % (d, dl.count(d))
        got = {d.lower(): f for d, f in im}
        for d, x in p['imports'].items():
            for n, who in x.items():
                # functions no code reaches need not be imported; those the program calls are found missing when it runs
                run.probe('imports compared')
                if got.get(d, []).count(n) > 1: return 'imports', '%s of %s is imported %d times' % (n, d, got[d].count(n))
        for d, f in got.items():
            for n in f:
                if n not in p['imports'].get(d, {}): return 'imports', '%s of %s is imported, the program does not ask for it' % (n, d)
        if p['mode'] == 'dll':
            e = pe.exports() or {}; want = sorted(n for n, o in p['exports'].items() if o)
            if sorted(e) != want: return 'exports', 'exported are %s, marked are %s' % (sorted(e), want)
            run.probe('exports compared', len(e))
            import struct
            k = []
            at = pe.b.find(struct.pack('<Q', MAGIC))
            while at >= 0:
                if any(ro <= at < ro + rs and not fl & 0x20 for nm, va, vs, ro, rs, fl in pe.sections): k.append(at)
                at = pe.b.find(struct.pack('<Q', MAGIC), at + 1)
            B.need(len(k) == 1, 'table of exports found %d times' % len(k))
            v = struct.unpack_from('<%dQ' % len(p['tab']), pe.b, k[0] + 16)
            for n, x in zip(p['tab'], v):
                if n in e and e[n] != x - pe.base: return 'exports', '%s is at %x, the export table has it at %x' % (n, x - pe.base, e[n])
        return self.runs(p, data, run)
    def obj(self, p, data, run):
        o = B.COFF(data); dr = [o.b[ro:ro + rs].decode('latin-1') for nm, rs, ro, fl in o.sections if nm == '.drectve']
        B.need(len(dr) <= 1, 'several directive sections')
        x = re.findall(r'/(\w+):("[^"]*"|\S+)', dr[0] if dr else '')
        low = [(a.lower(), b.strip('"')) for a, b in x]; run.probe('directives read', len(low))
        for l in p['libs']:
            b = l.split('/')[-1].lower(); k = [v for a, v in low if a == 'defaultlib' and v.lower() in (b, b + '.lib')]
            if len(k) != 1: return 'library', '%s is named %d times by the object file' % (b, len(k))
        for s, d in p['alts']:
            k = low.count(('alternatename', '%s=%s' % (s, d)))
            if k != 1: return 'alternate', '%s=%s is named %d times by the object file' % (s, d, k)
        t = tempfile.mkdtemp(prefix='hsim-link-')
        try:
            open(t + '/a.obj', 'wb').write(data); open(t + '/tls.obj', 'wb').write(tlsobj())
            for k, v in p['files'].items(): open(os.path.join(t, k.split('/')[-1]), 'wb').write(v.encode('latin-1'))
            rc, out = call([a for a in LINK if a != '/nodefaultlib'] + ['/nodefaultlib:' + l for l in ('libcmtd', 'libcmt', 'oldnames', 'msvcrt', 'msvcrtd')] + ['/out:a.exe', 'a.obj', 'tls.obj'], t)
            if rc: return 'link', 'the object does not link: %s' % out.replace('\n', ' | ')[:400]
            run.probe('links')
            return self.runs(p, open(t + '/a.exe', 'rb').read(), run)
        finally: shutil.rmtree(t, ignore_errors=True)
