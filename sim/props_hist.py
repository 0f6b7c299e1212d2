"""P11, P12, P13: equality of outputs, one snapshot per file, interrupted compilations."""
import random, re
import binfmt as B
from core import job, sched, get, put
from props import Prop, prop, incs, run_exe, tail, diags, errors, bad_end, sched_names
from props_fault import OUT, cmd_of, files_of, want, calls, small_project, same_or_reason
from gen import Gen

def content(n, x):
    """what an output contains, whatever the order of its parts"""
    if n.endswith(('.exe', '.dll')):
        p = B.PE(x); return {'sections': sorted(s[0] for s in p.sections), 'imports': sorted((d.lower(), sorted(f)) for d, f in p.imports()), 'exports': sorted(p.exports() or {})}
    if n.endswith('.pdb'):
        p = B.PDB(x).parse()
        return {'procs': sorted((k, s, kind) for k, v in p.procs.items() for a, s, kind in v), 'data': sorted((k, kind) for k, v in p.data.items() for a, t, kind in v), 'lines': sorted(sorted(v) for v in p.lines.values()), 'files': sorted(p.files)}
    if n.endswith('.obj'):
        p = B.COFF(x); return {'parts': parts(p), 'defined': p.defined(), 'undefined': p.undefined(), 'sections': sorted(s[0] for s in p.sections), 'relocs': sorted((p.sections[s - 1][0], nm if not nm.startswith(('.', '$')) else '', t) for s, a, nm, t in p.relocs)}
    return {'lines': sorted(x.split(b'\n'))}

def parts(p):
    """every function of an object file: bytes without the fields that relocations fill, and what those refer to"""
    out = []
    rel = {}
    for s, a, nm, t in p.relocs: rel.setdefault(s, []).append((a, nm, t))
    for si, (name, rs, ro, ch) in enumerate(p.sections, 1):
        if ch & 0x80 or not name.startswith('.text'): continue
        raw = bytearray(p.b[ro:ro + rs])
        for a, nm, t in rel.get(si, []):
            k = 8 if t == 1 else 4; raw[a:a + k] = b'\0' * k
        cut = sorted({(v, nm) for _, nm, v, sec, ty, cl in p.symbols if sec == si and cl in (2, 3) and not nm.startswith(('.', '$', '@'))})
        for k, (v, nm) in enumerate(cut):
            e = min([w for w, _ in cut if w > v] or [rs])
            b = bytes(raw[v:e]).rstrip(b'\0\xcc\x90')
            out.append((nm, b.hex(), sorted((a - v, m if not m.startswith(('.', '$', '@')) else '', t) for a, m, t in rel.get(si, []) if v <= a < e)))
    return sorted(out)

@prop
class P11(Prop):
    id = 'P11'
    cases = (1500, 25000)
    rule = ('a case is a generated program (valid or with mistakes), an output mode and one thread compiled 5 times with other clocks (also ones that jump during the run), address layouts, contents of uninitialised memory, directory orders and processor counts, and 3 times with 2..6 threads; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'dll', 'obj', 'obj', 'pre', 'ep'])
        ne = r.choice([0, 0, 0, 0, 1, 2]) if mode[:3] in ('exe', 'dll') else 0
        g = small_project(r, tier, ne); t = g.texts()
        extra = r.choice(['', '', '-seed %d' % r.randint(1, 1 << 30)])
        js = {'base': job(t, cmd_of(mode, t, 1, extra))}
        s = self.run(js['base']); n = len(calls(s))
        for j in range(5):
            ex = []; ff = []
            if r.random() < .7: ex.append(['memseed', r.randint(1, 1 << 30)])
            if r.random() < .7: ex.append(['enumseed', r.randint(1, 1 << 30)])
            if r.random() < .7: ex.append(['clock', r.choice([116444736000000000 + 10000000, 116444736000000000 + (1 << 31) * 10000000, r.randint(125000000000000000, 140000000000000000)])])
            if r.random() < .5: ex.append(['nproc', r.choice([1, 2, 8, 64])])
            if r.random() < .5:
                for _ in range(r.choice([1, 1, 3])): ff.append(('any', r.randint(1, max(1, n)), 'clock=%d' % r.choice([-36000000000, 10000000, -10000000, 20000000000, r.randint(-10**15, 10**15)])))
            js['e%d' % j] = job(t, cmd_of(mode, t, 1, extra), *ex, faults=ff)
        for j in range(3):
            js['s%d' % j] = job(t, cmd_of(mode, t, r.choice([2, 2, 3, 4, 6]), extra), ['memseed', r.randint(0, 3)], ['enumseed', r.randint(0, 3)], sched=sched(r))
        return {'scenario': mode, 'jobs': js, 'params': {'mode': mode, 'errors': len(g.marks)}}
    def check(self, case, run):
        p = case['params']; mode = p['mode']
        b = run('base')
        if b['status'] != 'exit': return None
        if (b['code'] != 0) != bool(p['errors']): return 'base', 'the first run ends with %d: %s' % (b['code'], tail(b['stdout']))
        mb = {n: B.masked(n, x) for n, x in b['files'].items()}
        cb = {n: content(n, x) for n, x in b['files'].items()}
        for n in case['jobs']:
            if n == 'base': continue
            q = run(n)
            if q['status'] != 'exit': return q['status'], '%s: %s' % (n, bad_end(q))
            if q['code'] != b['code']: return 'code', '%s: exit code %d, the first run %d: %s' % (n, q['code'], b['code'], tail(q['stdout']))
            if sorted(q['files']) != sorted(mb): return 'outputs', '%s: outputs %s, the first run %s' % (n, sorted(q['files']), sorted(mb))
            if n[0] == 'e':
                if q['stdout'] != b['stdout']: return 'stdout', '%s: the messages differ: %s' % (n, first_diff(q['stdout'], b['stdout']))
                for f, x in q['files'].items():
                    y = B.masked(f, x)
                    if y != mb[f]: return 'bytes', '%s: %s differs from the first run beyond its time stamps: %s' % (n, f, byte_diff(y, mb[f]))
                run.probe('identical outputs')
            else:
                for f, x in q['files'].items():
                    c = content(f, x)
                    for k in c:
                        if c[k] != cb[f][k]: return 'content', '%s: %s of %s differ: with several threads only %s, with one only %s' % (n, k, f, [z for z in c[k] if z not in cb[f][k]][:4], [z for z in cb[f][k] if z not in c[k]][:4])
                run.probe('equal contents')
        return None

def first_diff(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y: return '%r / %r' % (x[:200], y[:200])
    return 'lengths %d / %d' % (len(a), len(b))

def byte_diff(a, b):
    d = [i for i, (x, y) in enumerate(zip(a, b)) if x != y]
    return '%d and %d bytes, %d of them differ, the first at %s: %s / %s' % (len(a), len(b), len(d), d[:3], a[d[0]:d[0] + 16].hex() if d else '', b[d[0]:d[0] + 16].hex() if d else '')

# ---- P12 ------------------------------------------------------------------------------------------------------------
M32 = 0xffffffff

class Incl:
    """units and headers that include each other in every way, with a model of the result for every combination of file versions"""
    def __init__(self, r, tier):
        self.r = r
        self.nh = r.choice([1, 2, 3, 5, 8] + ([16] if tier == 'thorough' else []))
        self.nu = r.choice([1, 2, 3, 5, 8])
        self.dirs = ['', 'inc', 'inc/deep', 'inc2']
        self.h = []
        for i in range(self.nh):
            kind = r.choice(['once', 'once', 'guard', 'tmpl', 'oncelate'])
            d = r.choice(self.dirs); nm = 'h%d.h' % i
            self.h.append({'i': i, 'kind': kind, 'path': d + '/' + nm if d else nm, 'ver': r.randint(100, 999), 'mul': r.randint(3, 99) | 1, 'pad': r.choice([0, 0, 10, 300, 5000]), 'incs': [], 'line': 0, 'tm': []})
        # wrappers of a header of the same name in a later directory
        for i in range(self.nh):
            x = self.h[i]
            if x['kind'] in ('once', 'guard') and r.random() < .2:
                j = len(self.h); x['path'] = 'inc/h%d.h' % i; x['next'] = j
                self.h.append({'i': j, 'kind': r.choice(['once', 'guard']), 'path': r.choice(['inc/deep', 'inc2']) + '/h%d.h' % i, 'ver': r.randint(100, 999), 'mul': 3, 'pad': r.choice([0, 300]), 'incs': [], 'line': 0, 'tm': [], 'byname': 0})
        self.nh = len(self.h)
        for x in self.h:
            if x['kind'] in ('tmpl', 'oncelate'): continue
            for y in self.h:
                if y is x or r.random() > .3: continue
                if y['kind'] == 'tmpl': x['tm'].append(y['i'])
                else: x['incs'].append(y['i'])
        self.blobs = [{'path': 'b%d.bin' % i, 'data': bytes(r.choice(b'abcxyz019\n \0\xff') for _ in range(r.choice([1, 5, 200, 3000])))} for i in range(r.choice([0, 0, 1, 2]))]
        self.u = []
        for k in range(self.nu):
            inc = [(y['i'], r.randrange(6)) for y in self.h for _ in range(r.choice([0, 1, 1, 2]))]
            r.shuffle(inc)
            if any(self.h[i]['kind'] == 'tmpl' for i, _ in inc):
                seen = set(); inc = [(i, s) for i, s in inc if self.h[i]['kind'] != 'tmpl' or not (i in seen or seen.add(i)) or r.random() < .5]
            self.u.append({'k': k, 'inc': inc, 'split': r.randint(0, len(inc)), 'ver': r.randint(100, 999), 'blob': [b for b in range(len(self.blobs)) if r.random() < .5], 'pragmas': []})
        # units that are not on the command line but named by a pragma of other ones
        self.named = list(range(self.nu))
        if self.nu > 1 and r.random() < .4:
            for k in range(1, self.nu):
                if r.random() < .5:
                    self.named.remove(k)
                    for x in {r.randrange(k) for _ in range(r.choice([1, 1, 2, 3]))}: self.u[x]['pragmas'].append(k)
    def spell(self, frm, to, how):
        """an include directive that reaches `to` from the file `frm`"""
        if how >= 4 or any(x['path'] == to and 'byname' in x for x in self.h): return self.dotted(frm, to, how)
        d = frm.rsplit('/', 1)[0] + '/' if '/' in frm else ''
        base = to.rsplit('/', 1)[-1]
        if how == 1 and '/' in to: return '<%s>' % base
        if how == 2 and '/' in to: return '"%s"' % base if d and to.startswith(d) and '/' not in to[len(d):] else '<%s>' % base
        if to.startswith(d): return '"%s"' % to[len(d):]
        return '<%s>' % base if '/' in to else '<%s>' % to
    def dotted(self, frm, to, how):
        f = frm.split('/')[:-1]; t = to.split('/')
        if how != 5:
            while f and len(t) > 1 and f[0] == t[0]: f.pop(0); t.pop(0)
            t = ['..'] * len(f) + t
        r = random.Random(how * 31 + len(frm) * 7 + len(to)); out = []
        for c in t:
            if c != '..' and how >= 4:
                if r.random() < .3: out.append('.')
                if r.random() < .4: out += [r.choice(['inc', 'inc2', 'nodir']), '..']
            out.append(c)
        return ('<%s>' if how == 5 else '"%s"') % '/'.join(out)
    def header(self, i, ver):
        x = self.h[i]; L = []
        if x['kind'] == 'tmpl':
            return 'static unsigned T(unsigned x){ return x * %du + %du; }\n/*%s*/\n#undef T\n' % (ver, x['mul'], '.' * x['pad'])
        if x['kind'] == 'once': L.append('#pragma once')
        if x['kind'] == 'guard': L += ['#ifndef G%d' % i, '#define G%d' % i]
        if 'next' in x: L.append('#include_next <h%d.h>%s' % (i, ' // the real one' if i & 1 else ''))
        for j in x['incs']: L.append('#include ' + self.spell(x['path'], self.h[j]['path'], [0, 1, 2, 4, 5][(i * 7 + j) % 5]))
        for j in x['tm']: L += ['#define T tm%d_h%d' % (j, i), '#include ' + self.spell(x['path'], self.h[j]['path'], [0, 1, 2, 4, 5][(i + j) % 5])]
        if x['kind'] == 'oncelate': L.append('#pragma once')
        L += ['#define H%d_VER %d' % (i, ver), 'static unsigned h%d_a(unsigned x){ return x * 31u + %du; }' % (i, ver), '/*%s*/' % ('.' * x['pad'])]
        x['line'] = len(L) + 1
        L.append('static unsigned h%d_line(void){ return __LINE__; }' % i)
        L.append('static unsigned h%d_b(unsigned x){ return (x ^ %du) + H%d_VER; }' % (i, ver * 3, i))
        if x['kind'] == 'guard': L.append('#endif')
        return '\n'.join(L) + '\n'
    def closure(self, ids):
        out = []; st = list(ids)
        while st:
            i = st.pop()
            if i in out: continue
            out.append(i); st += self.h[i]['incs'] + ([self.h[i]['next']] if 'next' in self.h[i] else [])
        return sorted(i for i in out if self.h[i]['kind'] != 'tmpl')
    def unit(self, k, ver):
        u = self.u[k]; L = []; body = []; r = random.Random(k * 1000 + self.nh)
        for p in u['pragmas']: L.append('#pragma compilation_unit("u%d.c")' % p)
        cnt = {}
        for n, (i, how) in enumerate(u['inc']):
            if n == u['split']: L.append('unsigned mid_%d(void){ return %du; }' % (k, ver))
            if self.h[i]['kind'] == 'tmpl': c = cnt[i] = cnt.get(i, 0) + 1; L.append('#define T tm%d_u%d_%d' % (i, k, c))
            s = self.spell('u.c', self.h[i]['path'], how)
            if how == 3: L += ['#define PATH ' + s, '#include PATH', '#undef PATH']
            else: L.append('#include ' + s)
        if u['split'] == len(u['inc']): L.append('unsigned mid_%d(void){ return %du; }' % (k, ver))
        for b in u['blob']: L += ['static unsigned char blob%d[] = {' % b, '#embed "%s"' % self.blobs[b]['path'], '};']
        cl = self.closure([i for i, _ in u['inc']])
        L.append('unsigned unit_%d(unsigned h){' % k)
        for i in cl: L.append('    h = h * 33u + h%d_a(h); h = h * 35u + h%d_b(h) + h%d_line();' % (i, i, i))
        for i in cl:
            for j in self.h[i]['tm']: L.append('    h += tm%d_h%d(h);' % (j, i))
        for i in sorted(cnt):
            for c in range(1, cnt[i] + 1): L.append('    h ^= tm%d_u%d_%d(h);' % (i, k, c))
        for b in u['blob']: L.append('    for(unsigned i = 0; i < sizeof(blob%d); i++) h = h * 3u + blob%d[i];' % (b, b))
        L.append('    return h + mid_%d();' % k); L.append('}')
        if k == 0:
            L[:0] = ['unsigned unit_%d(unsigned);' % j for j in range(1, self.nu)]
            L.append('int _start(void){ unsigned h = 7u; %s return (int)h; }' % ' '.join('h = h * 5u + unit_%d(h);' % j for j in range(self.nu)))
        return '\n'.join(L) + '\n'
    def texts(self):
        t = {'u%d.c' % k: self.unit(k, self.u[k]['ver']) for k in range(self.nu)}
        t.update({x['path']: self.header(x['i'], x['ver']) for x in self.h})
        t.update({b['path']: b['data'] for b in self.blobs})
        return t
    def value(self, hv, uv, bl):
        H = 7
        def calc(k, h):
            u = self.u[k]; cl = self.closure([i for i, _ in u['inc']])
            for i in cl:
                v = hv[i]; h = (h * 33 + (h * 31 + v)) & M32; h = (h * 35 + (((h ^ (v * 3)) + v) & M32) + self.h[i]['line']) & M32
            for i in cl:
                for j in self.h[i]['tm']: h = (h + h * hv[j] + self.h[j]['mul']) & M32
            cnt = {}
            for i, _ in u['inc']:
                if self.h[i]['kind'] == 'tmpl': cnt[i] = cnt.get(i, 0) + 1
            for i in sorted(cnt):
                for _ in range(cnt[i]): h = h ^ ((h * hv[i] + self.h[i]['mul']) & M32)
            for b in u['blob']:
                for c in bl[k, b]: h = (h * 3 + c) & M32
            return (h + uv[k]) & M32
        for k in range(self.nu): H = (H * 5 + calc(k, H)) & M32
        return H

@prop
class P12(Prop):
    id = 'P12'
    cases = (1500, 25000)
    rule = ('a case is a generated include graph (headers included once by pragma or guard, headers included several times with other parameters, cycles, several search directories, embedded files, units named by a pragma) over 1..8 units, compiled in 9 runs with 1..6 threads, '
            'in most of which somebody else replaces or removes up to 3 of the files at seeded instants; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        g = Incl(r, tier); t = g.texts()
        cmd = lambda tc: 'hlc.exe %s -nostdlib -quiet -out a.exe -I inc -I inc/deep -I inc2 -I . -thread_count %d' % (' '.join('u%d.c' % k for k in g.named), tc)
        js = {'base': job(t, cmd(1))}
        s = self.run(js['base']); n = len(calls(s))
        hv = [x['ver'] for x in g.h]; uv = [u['ver'] for u in g.u]; bl = {(k, b): g.blobs[b]['data'] for u in g.u for k in [u['k']] for b in u['blob']}     # embedded files are not cached: one version per use
        ok = {'base': [g.value(hv, uv, bl)]}; mut = {}
        for j in range(9):
            tc = r.choice([1, 2, 2, 3, 4, 6]); ff = []; vals = [(list(hv), list(uv), dict(bl))]; touched = []
            if r.random() < .65:
                for _ in range(r.choice([1, 1, 2, 3])):
                    at = r.randint(1, n + 5)
                    c = r.choice(['h', 'h', 'h', 'u', 'b', 'rm'])
                    if c == 'rm': p = r.choice([x for x in t if not any('next' in y and y['path'] == x for y in g.h)]); ff.append(('any', at, 'remove=C:/work/' + p)); touched.append(p); continue
                    if c == 'b' and not bl: c = 'h'
                    same = r.random() < .5
                    if c == 'h':
                        i = r.randrange(g.nh); v = r.randint(100, 999) if same else r.randint(1000, 99999); p = g.h[i]['path']; new = g.header(i, v)
                        vals += [(a[:i] + [v] + a[i + 1:], b, d) for a, b, d in vals]
                    elif c == 'u':
                        i = r.randrange(g.nu); v = r.randint(100, 999) if same else r.randint(1, 99); p = 'u%d.c' % i; new = g.unit(i, v)
                        vals += [(a, b[:i] + [v] + b[i + 1:], d) for a, b, d in vals]
                    else:
                        i = r.choice(sorted({b for _, b in bl})); w = g.blobs[i]['data']; w = w[::-1] if same else w + b'1' * r.choice([1, 2, 400]); p = g.blobs[i]['path']; new = w.decode('latin-1')
                        for key in [x for x in bl if x[1] == i]: vals += [(a, b, d | {key: w}) for a, b, d in vals]
                    ff.append(('any', at, 'mutate=C:/work/%s=%s' % (p, new.replace('\n', '\x01')))); touched.append(p)
            js['s%d' % j] = job(t, cmd(tc), sched=sched(r) if tc > 1 else None, faults=ff)
            ok['s%d' % j] = sorted({g.value(*v) for v in vals}); mut['s%d' % j] = touched
        return {'scenario': 'named by a pragma' if len(g.named) < g.nu else 'command line', 'jobs': js, 'params': {'ok': ok, 'mut': mut}}
    def check(self, case, run):
        p = case['params']
        for n in case['jobs']:
            q = run(n); fl = '%s (%s)' % (n, [f[:80] for f in (get(case['jobs'][n], 'faults') or '').split('\n')[:-1]])
            if q['status'] != 'exit': return q['status'], '%s: %s' % (fl, bad_end(q))
            if q['code']:
                m = p['mut'].get(n) or []
                if not m or not q['faults']: return 'rejected', '%s: nothing changed on disk, exit code %d: %s' % (fl, q['code'], tail(q['stdout']))
                if not any(x.rsplit('/', 1)[-1] in q['stdout'] for x in m): return 'unnamed', '%s: exit code %d, but no message names %s: %s' % (fl, q['code'], m, tail(q['stdout']))
                run.probe('change noticed'); continue
            z = run_exe(run, q['files']['c:/work/a.exe'])
            if z['status'] != 'exit': return 'program-' + z['status'], '%s: the program ended with %s' % (fl, z['detail'][:200])
            if z['code'] & M32 not in p['ok'][n]: return 'mixed', '%s: the program returned %d, which no single version of each file means (%s)' % (fl, z['code'] & M32, p['ok'][n])
            if n in p['mut'] and q['faults']: run.probe('old version' if z['code'] & M32 == p['ok']['base'][0] else 'new version')
        return None


# ---- P13 ------------------------------------------------------------------------------------------------------------
def torn(data, how, rnd):
    """what is left on disk of data that was being written"""
    if how == 'kept' or not data: return data
    k = rnd % (len(data) + 1)
    if how == 'cut': return data[:k]
    if how == 'zero': return data[:k] + bytes(len(data) - k)
    if how == 'sector':       # some sectors never arrived
        b = bytearray(data); r = random.Random(rnd)
        for o in range(0, len(b), 512):
            if r.random() < .5: b[o:o + 512] = bytes(len(b[o:o + 512]))
        return bytes(b)
    if how == 'garbage': return data[:k] + bytes(random.Random(rnd).getrandbits(8) for _ in range(min(4096, len(data) - k))) + data[k + 4096:]
    if how == 'longer': return data + bytes(rnd % 70000)
    return b''

@prop
class P13(Prop):
    id = 'P13'
    cases = (1500, 25000)
    rule = ('a case is two versions of a generated program (the second sometimes with a mistake) and a history of 1..4 compilations of them over the same disk, of which each may be killed at a seeded call, inside a write, or end normally; what it wrote may be torn afterwards '
            '(cut, zeroed, sectors lost, garbage, longer); then the program is compiled over what is left, by one thread and by several, and compared with a compilation on a clean disk; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'exe_nd', 'dll', 'obj', 'obj', 'pre'])
        ne = r.choice([0, 0, 0, 0, 1]) if mode[:3] in ('exe', 'dll') else 0
        g = small_project(r, tier, ne); t = g.texts()
        old = small_project(r, tier, r.choice([0, 0, 0, 1]) if mode[:3] in ('exe', 'dll') else 0, opts=(), units=len([x for x in t if x.endswith('.c')])).texts()
        same = r.random() < .3
        js = {'base': job(t, cmd_of(mode, t, 1))}
        js['old'] = job(old, cmd_of(mode, old, 1))
        n = {}
        for x, tt in (('base', t), ('old', old)):
            s = self.run(js[x]); cs = calls(s); n[x] = (len(cs), [c for c in cs if c[0] in ('write', 'openw', 'close')])
        k = r.choice([1, 1, 1, 2, 3, 4]); steps = []; last = None
        for j in range(k):
            new = same or r.random() < .3; tt = t if new else old; nn, wr = n['base' if new else 'old']
            tc = r.choice([1, 1, 2, 3, 4]); x = r.random(); ff = []; m2 = mode if r.random() < .8 else r.choice(['exe', 'exe_nd', 'obj', 'dll'])
            if x < .35 and wr: c = r.choice(wr); ff = [(c[0], c[1], 'crash')]
            elif x < .7: ff = [('write', r.randint(1, max([c[1] for c in wr if c[0] == 'write'] or [1])), 'crashtorn=%d' % r.choice([0, 1, r.randrange(4096), r.randrange(1 << 20)]))]
            elif x < .85: ff = [('any', r.randint(1, nn + 5), 'crash')]
            js['s%d' % j] = job(tt, cmd_of(m2, tt, tc), sched=sched(r) if tc > 1 else None, faults=ff)
            steps.append([r.choice(['kept', 'kept', 'cut', 'zero', 'sector', 'garbage', 'longer', 'empty']), r.getrandbits(40), r.choice([0, 0, 131000000000000000, 134000000000000000, 145000000000000000])])
        js['f0'] = job(t, cmd_of(mode, t, 1))
        js['f1'] = job(t, cmd_of(mode, t, r.choice([2, 3, 4])), sched=sched(r))
        return {'scenario': '%s, %s' % (mode, 'mistake' if ne else 'valid'), 'jobs': js, 'params': {'mode': mode, 'steps': steps, 'errors': ne, 'expected': g.expected() if mode[:3] in ('exe', 'dll') and not ne else None}}
    def check(self, case, run):
        p = case['params']; mode = p['mode']
        b = run('base')
        if b['status'] != 'exit' or (b['code'] != 0) != bool(p['errors']): return 'base', 'on a clean disk: %s %d: %s' % (b['status'], b['code'], tail(b['stdout']))
        disk = {}; mt = {}
        def with_disk(jb):
            own = {v.split('\0', 1)[0].lower() for k, v in jb if k == 'file'}
            return [list(x) for x in jb] + [['file', o + '\0' + d.decode('latin-1')] for o, d in sorted(disk.items()) if o not in own] + [['mtime', o + '\0%d' % mt[o]] for o in sorted(mt) if mt[o] and o in disk]
        def inputs_kept(q, jb, n):
            own = {v.split('\0', 1)[0].replace('C:/', 'c:/').lower() for k, v in jb if k == 'file'}
            for f in q['files']:
                if f in own and f not in disk: return 'inputs', '%s: wrote to the input %s' % (n, f)
                if f.startswith(('c:/sdk', 'c:/hlc')): return 'inputs', '%s: wrote to %s' % (n, f)
            for f in q.get('removed', '').split('\n'):
                if f and f not in disk: return 'inputs', '%s: removed %s' % (n, f)
        for j, (how, rnd, mtime) in enumerate(p['steps']):
            n = 's%d' % j
            if n not in case['jobs']: continue
            jb = case['jobs'][n]
            q = run(with_disk(jb))
            if q['status'] not in ('exit', 'crashed'): return q['status'], '%s: %s' % (n, bad_end(q))
            v = inputs_kept(q, jb, n)
            if v: return v
            for f in q.get('removed', '').split('\n'): disk.pop(f, None)
            for f, d in q['files'].items():
                disk[f] = torn(d, how, rnd) if q['status'] == 'crashed' else d; mt[f] = mtime
            run.probe('%s, left %s' % (q['status'], 'output' if q['files'] else 'nothing'))
        for n in ('f0', 'f1'):
            jb = case['jobs'][n]; q = run(with_disk(jb))
            if q['status'] != 'exit': return 'after-' + q['status'], '%s: over what was left: %s' % (n, bad_end(q))
            if q['code'] != b['code']: return 'after-code', '%s: over what was left the exit code is %d, on a clean disk %d: %s' % (n, q['code'], b['code'], tail(q['stdout']))
            v = inputs_kept(q, jb, n)
            if v: return v
            if n == 'f0' and q['stdout'] != b['stdout']: return 'after-messages', '%s: over what was left the messages differ: %s' % (n, first_diff(q['stdout'], b['stdout']))
            if sorted(q['files']) != sorted(b['files']): return 'after-outputs', '%s: over what was left the outputs are %s, on a clean disk %s' % (n, sorted(q['files']), sorted(b['files']))
            if q['code'] == 0:
                v = same_or_reason(mode, q, b, 1 if n == 'f0' else 2, run, p['expected'])
                if v: return 'after-' + v[0], '%s: over what was left: %s' % (n, v[1])
                if n == 'f1':
                    for f, x in q['files'].items():
                        c, cb = content(f, x), content(f, b['files'][f])
                        for k in c:
                            if c[k] != cb[k]: return 'after-content', '%s: over what was left, %s of %s differ: only now %s, only on a clean disk %s' % (n, k, f, [z for z in c[k] if z not in cb[k]][:3], [z for z in cb[k] if z not in c[k]][:3])
        return None
