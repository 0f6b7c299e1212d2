"""P17: the preprocessed text; further properties of single parts."""
import os, random, re, shutil, tempfile
import binfmt as B
from core import job, sched, get, put
from props import Prop, prop, project, incs, run_exe, tail, bad_end, sched_names
from props_fault import files_of, calls
from props_hist import Incl
M32 = 0xffffffff


class Flat:
    """units without anything private, so that their preprocessed texts may be put behind each other; rich in tokens that must not be glued together"""
    UN = [('-', lambda x: -x & M32), ('~', lambda x: ~x & M32), ('+', lambda x: x), ('!', lambda x: int(not x))]
    BIN = ['-', '+', '*', '&', '|', '^', '<', '>', '==', '!=', '&&', '||', '<=', '>=']
    def __init__(self, r, nu, tier):
        self.r = r; self.nu = nu; self.n = 0; self.t = {}; self.libs = []; self.alts = []; self.blobs = {}; self.fns = []
        self.macros = [[] for _ in range(nu)]; self.named = {}
        self.hdr = []
        for k in range(r.choice([0, 1, 2, 3])):     # headers any unit may include, any number of times
            nm = r.choice(['', 'inc/']) + 'f%d.h' % k; v = r.getrandbits(16)
            self.t[nm] = r.choice(['', '\n\n', '/* a\n comment */\n']) + '#undef HV%d\n#define HV%d %d\n%sextern unsigned hx%d;\n%s' % (k, k, v, r.choice(['', '\n\n\n']), k, r.choice(['', 'unsigned hf%d(unsigned);\n' % k])); self.hdr.append((nm, k, v))
        out = [[] for _ in range(nu)]
        for nm, k, v in self.hdr: u = r.randrange(nu); out[u].append('unsigned hx%d = %du;\nunsigned hf%d(unsigned x){ return x * 7u; }' % (k, v ^ 0x55, k))
        self.ops = [{} for _ in range(nu)]
        for k in range(r.choice([1, 3, 6, 12])):
            u = r.randrange(nu); out[u].append(self.function(u, k))
        for k in range(r.choice([0, 0, 1, 2])): self.packed(r.randrange(nu), k, out)
        for k in range(r.choice([0, 0, 1, 2])): self.embed(r.randrange(nu), k, out)
        if r.random() < .3: self.directives(out)
        u = r.randrange(nu); h = 5; C = []
        for n, f in self.fns: C.append('h = %s(h);' % n); h = f(h)
        self.expected = h; r.shuffle(out[u]); out[u].insert(0, ''.join('unsigned %s(unsigned);\n' % n for n, f in self.fns)); out[u].append('int _start(void){ unsigned h = 5u;%s%s return (int)h; }' % (r.choice(['', '\n']), ' '.join(C)))
        for u in range(nu):
            inc = [h for h in self.hdr if u in self.named.get(h[1], ())]; extra = [r.choice(self.hdr) for _ in range(r.choice([0, 1, 2]))] if self.hdr else []
            L = ['#include "%s"' % h[0] for h in r.sample(inc + extra, len(inc + extra))] + self.macros[u]
            w = ['#pragma something_unknown', '#define UNUSED_%d' % u] if r.random() < .15 else []
            self.t['u%d.c' % u] = '\n'.join(w + L + out[u]) + r.choice(['\n', '\n', '\n\n  \n'])
        self.texts = self.t
    def macro(self, u, body):
        """body behind a macro: the tokens arrive from somewhere else"""
        r = self.r; self.n += 1; n = 'MC%d' % self.n; k = r.randrange(4)
        bal = body.count('(') == body.count(')') and ',' not in body
        if k == 0 or not bal: self.macros[u].append('#define %s %s' % (n, body)); return ' %s ' % n
        if k == 1: self.macros[u].append('#define %s(x) x' % n); return ' %s(%s)' % (n, body)
        if k == 2: self.macros[u] += ['#define %s_b \\\n   %s' % (n, body), '#define %s() %s_b' % (n, n)]; return ' %s%s()' % (n, r.choice(['', ' ', '\n']))
        self.macros[u].append('#define %s(...) __VA_ARGS__' % n); return ' %s(%s)' % (n, body)
    def tok(self, u, t):
        return self.macro(u, t) if self.r.random() < .25 else t
    def sp(self): return self.r.choice(['', '', ' ', '  ', '\n', '/**/', '\t', ' /* c */ '])
    def expr(self, u, d):
        """(text, function of the locals a, b and p)"""
        r = self.r
        if d <= 0 or r.random() < .15:
            k = r.randrange(12); v = r.getrandbits(r.choice([3, 8, 31]))
            if k <= 2: n = r.choice('ab'); return self.tok(u, n), lambda e, n=n: e[n]
            if k == 3: return self.tok(u, r.choice(['%du', '0x%xu', '0x%XU', '%dU']) % v), lambda e: v
            if k == 4: return '(unsigned)' + self.tok(u, '%d' % (v & 0x7fffffff)), lambda e: v & 0x7fffffff
            if k == 5: c = r.choice('az09 "'); return "(unsigned)'%s'" % c, lambda e: ord(c)
            if k == 6: c, x = r.choice([("\\n", 10), ("\\\\", 92), ("\\'", 39), ("\\x41", 65), ("\\0", 0)]); return "(unsigned)'%s'" % c, lambda e: x
            if k == 7: s = r.choice(['abc', 'a b', '//x', '/*y*/', '#line', '\\"q']); i = r.randrange(2); x = eval('"%s"' % s); return '(unsigned)"%s"%s[%d]' % (s, r.choice(['', ' "zz"', '\n"zz"']), i), lambda e: ord((x + '\0')[i])
            if k == 8 and self.hdr:
                nm, j, hv = r.choice(self.hdr); self.named.setdefault(j, set()).add(u); return ('(unsigned)HV%d' % j, lambda e: hv) if r.random() < .5 else ('hx%d' % j, lambda e: hv ^ 0x55)
            if k == 9:
                self.n += 1; self.macros[u] += ['#define ST%d(x) #x' % self.n]; s = r.choice(['ab', 'a"b"c', "'q'", 'x + y', 'f(1)']) ; return '(unsigned)ST%d(%s)[%d]' % (self.n, s, 1), lambda e: ord(s[1])
            if k == 10: self.n += 1; v &= 0xffff; self.macros[u] += ['#define GL%d(x, y) x ## y' % self.n]; return 'GL%d(%d,%du)' % (self.n, v & 0xff or 1, v), lambda e: int('%d%d' % (v & 0xff or 1, v)) & M32
            return '*p', lambda e: e['p']
        k = r.random()
        if k < .25:
            o, f = r.choice(self.UN); t, g = self.expr(u, d - 1); s = self.sp()
            if o in '-+' and t[:1] == o and not s: s = ' '
            if o == '!': return '(unsigned)%s%s%s' % (self.tok(u, '!'), s, '(' + t + ')'), lambda e: int(not g(e))
            return '%s%s%s' % (self.tok(u, o), s, t if re.match(r'^[-~+*\w()\s/]*$', t) and re.match(r'^[-~+ ]*(\w+|MC\d+\(\w*\))$', t) else '(' + t + ')'), lambda e: f(g(e))
        if k < .8:
            o = r.choice(self.BIN); t, g = self.expr(u, d - 1); t2, g2 = self.expr(u, d - 1); s, s2 = self.sp(), self.sp()
            l = t if re.match(r'^\w+$', t) else '(' + t + ')'; q = t2 if re.match(r'^[-~+*]*\w+$', t2) else '(' + t2 + ')'
            if q[:1] in o or q[:1] == '*' or s2.startswith('/') or o == '/': s2 = s2 if s2.strip(' \t\n') == '' and s2 else ' '
            if s.startswith('/') : s = ' ' + s
            ot = self.tok(u, o); cast = o in '<>==!=&&||<=>='.replace('=', '', 0) and o in ('<', '>', '==', '!=', '&&', '||', '<=', '>=')
            F = {'-': lambda x, y: x - y & M32, '+': lambda x, y: x + y & M32, '*': lambda x, y: x * y & M32, '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '<': lambda x, y: int(x < y), '>': lambda x, y: int(x > y), '==': lambda x, y: int(x == y), '!=': lambda x, y: int(x != y), '&&': lambda x, y: int(bool(x and y)), '||': lambda x, y: int(bool(x or y)), '<=': lambda x, y: int(x <= y), '>=': lambda x, y: int(x >= y)}[o]
            return '%s(%s%s%s%s%s)' % ('(unsigned)' if cast else '', l, s, ot, s2, q), lambda e: F(g(e), g2(e))
        c, g = self.expr(u, d - 1); x, gx = self.expr(u, d - 1); y, gy = self.expr(u, d - 1)
        return '((%s)%s?%s(%s)%s:%s(%s))' % (c, self.sp(), self.sp(), x, self.sp(), self.sp(), y), lambda e: gx(e) if g(e) else gy(e)
    def function(self, u, k):
        r = self.r; n = 'fl%d' % k; L = []; steps = []
        for _ in range(r.choice([1, 2, 4])):
            j = r.randrange(7); t, g = self.expr(u, r.choice([1, 2, 3]))
            if j <= 2: L.append('a = %s%s;' % (t, self.sp())); steps.append(lambda e, g=g: e.update(a=g(e)))
            elif j == 3:
                o1, o2 = r.choice(['++', '--']), r.choice(['+', '-']); pre = self.tok(u, o1); L.append('b = a%s%s%sb;' % (self.tok(u, o1), r.choice([' ', '\n']), self.tok(u, o2) + ' '))
                def st(e, o1=o1, o2=o2): a = e['a']; e['b'] = (a + e['b'] if o2 == '+' else a - e['b']) & M32; e['a'] = (a + (1 if o1 == '++' else -1)) & M32
                steps.append(st)
            elif j == 4:
                o1, o2 = r.choice(['++', '--']), r.choice(['+', '-']); L.append('b = b %s %sa;' % (o2, self.tok(u, o1) + r.choice(['', ' ', '\n'])))
                def st(e, o1=o1, o2=o2): e['a'] = (e['a'] + (1 if o1 == '++' else -1)) & M32; e['b'] = (e['b'] + e['a'] if o2 == '+' else e['b'] - e['a']) & M32
                steps.append(st)
            elif j == 5: L.append('if(%s)%s{ b ^= %s; }%selse%sb += 3;' % (t, self.sp(), 'a', self.sp().strip('/* c') + ' ', ' ')); steps.append(lambda e, g=g: e.update(b=e['b'] ^ e['a'] if g(e) else e['b'] + 3 & M32))
            else: L.append('{ unsigned w = __LINE__ > 0%s; a += w %s(%s); }' % (r.choice(['', 'u']), self.tok(u, '*') + ' ', t)); steps.append(lambda e, g=g: e.update(a=e['a'] + g(e) & M32))
        m = r.getrandbits(20)
        def f(h):
            e = {'a': h, 'b': h ^ m, 'p': 1234567}
            for s in steps: s(e)
            return (e['a'] ^ e['b']) & M32
        self.fns.append((n, f))
        return 'unsigned %s(unsigned a){ unsigned b = a ^ %du, q = 1234567u, *p = &q;%s%s%sreturn a ^ b; }' % (n, m, r.choice([' ', '\n']), r.choice([' ', '\n', '\n\n']).join(L), r.choice([' ', '\n']))
    def packed(self, u, k, out):
        r = self.r; n = 'pk%d' % k; al = r.choice([1, 2, 4]); sz = max(4, al); body = 'struct %s { char a; unsigned long long b; char c; };' % n
        size = {1: 10, 2: 12, 4: 16}[al]; how = r.randrange(6)
        if how == 0: L = ['#pragma pack(push, %d)' % al, body, '#pragma pack(pop)']
        elif how == 1: L = ['#pragma pack(%d)' % al, body, '#pragma pack()']
        elif how == 2: L = ['__pragma(pack(push, %d))' % al, body, '__pragma(pack(pop))']
        elif how == 3: L = ['__pragma(pack(push, %d)) %s __pragma(pack(pop))' % (al, body)]
        elif how == 4: self.macros[u] += ['#define PUSH%d __pragma(pack(push, %d))' % (k, al), '#define POP%d __pragma(pack(pop))' % k]; L = ['PUSH%d %s POP%d' % (k, body, k)] if r.random() < .5 else ['PUSH%d' % k, body, 'POP%d' % k]
        else: self.macros[u] += ['#define PS%d(x) __pragma(pack(push, %d)) x __pragma(pack(pop))' % (k, al)]; L = ['PS%d(%s)' % (k, body)]
        L.append('struct un%s { char a; unsigned long long b; char c; };' % n); L.append('unsigned %s_f(unsigned h){ return h * 5u + (unsigned)sizeof(struct %s) * 100u + (unsigned)sizeof(struct un%s); }' % (n, n, n))
        self.fns.append((n + '_f', lambda h: h * 5 + size * 100 + 24 & M32)); out[u].append('\n'.join(L))
    def embed(self, u, k, out):
        r = self.r; d = bytes(r.choice(b'abc019\n\r\\" \0\xff#,') for _ in range(r.choice([0, 1, 3, 40, 3000]))); self.t['bl%d.bin' % k] = d
        p, s, e = r.choice([('', '', ''), (' prefix(1, 2,)', '', ''), ('', ' suffix(, 9)', ''), ('', '', ' if_empty(7)')]) if d else ('', '', ' if_empty(7)')
        v = (([1, 2] if p else []) + list(d) + ([9] if s else [])) if d else [7]
        one = r.random() < .3
        out[u].append('unsigned char bl%d[] = {\n#embed "bl%d.bin"%s%s%s\n};\nunsigned bl%d_f(unsigned h){ for(unsigned i = 0; i < sizeof(bl%d); i++) h = h * 3u + bl%d[i]; return h + (unsigned)sizeof(bl%d); }' % (k, k, p, s, e, k, k, k, k))
        def f(h):
            for c in v: h = h * 3 + c & M32
            return h + len(v) & M32
        self.fns.append(('bl%d_f' % k, f))
    def directives(self, out):
        r = self.r
        for k in range(r.choice([1, 2, 3])):
            nm = 'lib%d' % k + r.choice(['', '', 'x' * r.choice([100, 190])]); dll = 'lib%d.dll' % k; f = ['lf%d_%d%s' % (k, i, '_' + 'n' * r.choice([0, 0, 80, 110, 200])) for i in range(2)]; al = 'al%d%s' % (k, '_' + 'm' * r.choice([0, 50, 120, 140, 150]))
            self.t[nm + '.lib'] = B.implib(dll, [(x, 0, False) for x in f])
            u = r.randrange(self.nu); v = r.randrange(self.nu)
            out[u].insert(0, '#pragma comment(lib, "%s%s")' % (nm, r.choice(['', '.lib']))); out[v].insert(0, '#pragma comment(linker, "/ALTERNATENAME:%s=%s")' % (al, f[1]))
            w = r.randrange(self.nu); n = 'lw%d' % k; out[w].append('unsigned %s(unsigned);\nunsigned %s(unsigned);\nunsigned %s(unsigned h){ return %s(h) * 3u + %s(h); }' % (f[0], al, n, f[0], al))
            s0, s1 = B.stub_value(dll, f[0]), B.stub_value(dll, f[1]); self.fns.append((n, lambda h, s0=s0, s1=s1: (h + s0) * 3 + h + s1 & M32))

@prop
class P17(Prop):
    id = 'P17'
    cases = (4500, 60000)
    rule = ('a case is a generated program (generated projects with headers, include graphs with embedded files, or units rich in macros, packing pragmas, embedded files and library directives) that is only preprocessed, to a file or to the standard output, unit by unit or all units into one text, by 1..6 requested threads, sometimes with write or read faults; '
            'the text is compiled under seeded schedules and the program it gives is run and compared with the model of the original sources; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        kind = r.choice(['gen', 'incl', 'flat', 'flat', 'flat all', 'flat all'])
        if kind == 'gen': g = project(r, tier); t = g.texts(); exp = g.expected(); named = [x for x in t if x.endswith('.c')]; I = incs(t)
        elif kind == 'incl':
            g = Incl(r, tier); [u['pragmas'].clear() for u in g.u]; t = g.texts(); named = ['u%d.c' % k for k in range(g.nu)]; I = ' -I inc -I inc/deep -I inc2 -I .'
            exp = g.value([x['ver'] for x in g.h], [u['ver'] for u in g.u], {(u['k'], b): g.blobs[b]['data'] for u in g.u for b in u['blob']})
        else: g = Flat(r, r.choice([1, 2, 3, 5]) if kind == 'flat all' else r.choice([1, 1, 2]), tier); t = g.texts; exp = g.expected; named = [x for x in t if x.endswith('.c')]; I = ''
        if r.random() < .3: r.shuffle(named)
        groups = [named] if kind == 'flat all' else [[x] for x in named]
        js = {}; how = {}
        for j, us in enumerate(groups):
            w = r.choice(['P', 'P', 'EP']); tc = r.choice([1, 2, 4, 6]); how['p%d' % j] = w
            js['p%d' % j] = job(t, 'hlc.exe %s %s-nostdlib -quiet%s -thread_count %d' % (' '.join(us), '-P -Fi u%d.i ' % j if w == 'P' else '-EP ', I, tc), sched=sched(r))
        if r.random() < .4:      # the same again with faults
            j = 'p0'; base = js[j]; s = self.run(base); cs = calls(s); ff = []
            cs = [c for c in cs if c[0] in ('write', 'openw', 'stdout', 'open', 'read', 'fileinfo')]
            for _ in range(r.choice([1, 1, 2])):
                wr = [c for c in cs if c[0] in ('write', 'openw', 'stdout')]; c = r.choice(wr if wr and r.random() < .6 else cs)
                a = {'openw': ['sharing', 'denied', 'full'], 'write': ['full', 'io', 'short=%d', 'torn=%d', 'short=%d'], 'stdout': ['broken', 'short=%d'], 'open': ['sharing', 'denied'], 'read': ['io', 'short=%d'], 'fileinfo': ['io']}[c[0]]
                a = r.choice(a); ff.append((c[0], c[1], a % r.choice([0, 1, 30, r.randrange(4000)]) if '%' in a else a))
            js['f0'] = [x for x in base if x[0] != 'faults'] + [['faults', ''.join('%s %d %s\n' % f for f in ff)]]; how['f0'] = how[j]
        return {'scenario': kind, 'jobs': js, 'params': {'expected': exp, 'how': how, 'libs': {k: v.decode('latin-1') for k, v in t.items() if k.endswith('.lib')}, 'scheds': [[list(x) for x in sched(r)] for _ in range(3)], 'tcs': [1] + [r.choice([2, 3, 4, 6]) for _ in range(2)]}}
    def text(self, case, n, run):
        q = run(n); w = case['params']['how'][n]; j = n[1:]
        if q['status'] != 'exit': return q, None, (q['status'], '%s: %s' % (n, bad_end(q)))
        if q['code']: return q, None, None
        x = q['files'].get('c:/work/u%s.i' % j) if w == 'P' else q['stdout'].encode('latin-1')
        if x is None: return q, None, ('missing', '%s: exit code 0, but nothing was written' % n)
        return q, x, None
    def check(self, case, run):
        p = case['params']; parts = {}
        for n in sorted(case['jobs']):
            if n[0] != 'p': continue
            q, x, v = self.text(case, n, run)
            if v: return v
            if x is None: return 'rejected', '%s: a valid program is not preprocessed: %s' % (n, tail(q['stdout']))
            parts['v%s.c' % n[1:]] = x.decode('latin-1')
        if 'f0' in case['jobs']:
            q, x, v = self.text(case, 'f0', run)
            if v: return v
            fl = (get(case['jobs']['f0'], 'faults') or '').replace('\n', ';')
            if q['code'] and 'stdout' not in fl and not re.search(r'Error|[Uu]nable|could not', q['stdout'] + q.get('stderr', '')): return 'silent', 'f0 (%s): exit code %d without a message: %s' % (fl, q['code'], tail(q['stdout']))
            if q['code'] == 0:
                run.probe('fault, text complete' if q['faults'] else 'fault not reached')
                if x.decode('latin-1') != parts['v0.c']: return 'incomplete', 'f0 (%s): exit code 0, but the text is not the one of an undisturbed run (%d and %d bytes)' % (fl, len(x), len(parts['v0.c']))
            else: run.probe('fault reported')
        f = dict(parts); f.update(p['libs'])
        for k, (s, tc) in enumerate(zip(p['scheds'], p['tcs'])):
            q = run(job(f, 'hlc.exe %s -nostdlib -quiet -out a.exe -thread_count %d' % (' '.join(parts), tc), sched=s if tc > 1 else None))
            if q['status'] != 'exit': return 're-' + q['status'], 'compiling the text with %d threads: %s' % (tc, bad_end(q))
            if q['code']: return 're-rejected', 'the text does not compile: %s' % tail(q['stdout'])
            z = run_exe(run, q['files']['c:/work/a.exe'], impstub=1)
            if z['status'] != 'exit': return 're-program', 'the program compiled from the text ended with %s %s' % (z['status'], z['detail'][:200])
            if z['code'] & M32 != p['expected']: return 're-result', 'the program compiled from the text returned %d, the sources mean %d' % (z['code'] & M32, p['expected'])
        return None

# ---- P19 --------------------------------------------------------------------------------------------------------------
DIRS = ['um', 'shared', 'winrt', 'ucrt']

class Sdk:
    """a machine with several versions of the SDK, each with headers and libraries of its own, and a program that tells which one it got"""
    def __init__(self, r, mode):
        self.r, self.mode = r, mode
        self.root = r.choice(['C:/Kits', 'C:/Program Files (x86)/Windows Kits/10', 'C:/sd', 'D:/k', 'C:/' + 'long name ' * r.choice([3, 10]) + '/K'])
        self.kits = self.root.replace('/', '\\') if r.random() < .8 else self.root
        self.kits += r.choice(['\\', '\\', '', '/', '\\\\'])
        self.zeros = r.choice([1, 1, 1, 0, 2, 5])
        self.vers = {}           # number -> (name of the key, state of the option)
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            n = r.choice([4, 4, 4, 4, 3, 2])
            q = tuple(([r.choice([10, 10, 10, 8, 11, 9])] + [r.choice([0, 0, 1, 9, 10]), r.choice([1, 9, 10, 99, 10240, 10586, 17763, 18362, 19041, 20348, 22000, 22621, 26100, 100000]), r.choice([0, 0, 1, 9, 10, 4294967296])])[:n])
            full = (q + (0, 0, 0))[:4]
            if full in self.vers: continue
            self.vers[full] = ('.'.join(map(str, q)), r.choice(['1', '1', '1', '1', '1', '0', 'none', 'nokey']))
        self.good = sorted(v for v, (n, st) in self.vers.items() if st == '1')
        self.pick = self.good[-1] if self.good else None
        self.files = {}; self.dirs = []; self.val = {}
        self.dup = sorted(r.sample(DIRS, r.choice([1, 2, 3, 4])), key=DIRS.index)
        for v in self.vers:
            s = '.'.join(map(str, v)); x = self.val[v] = {}
            for d in DIRS:
                p = '%s/Include/%s/%s' % (self.root, s, d); self.dirs.append(p)
                sub = r.choice(['', '', 'sub/']) if d != 'um' else ''
                x[d] = r.getrandbits(20); x[d + 'sub'] = sub
                self.files['%s/who_%s.h' % (p, d)] = '#define WHO_%s %du\n' % (d, x[d])
                if d in self.dup: x['dup_' + d] = r.getrandbits(20); self.files['%s/dup.h' % p] = '#pragma once\n#define WHO_dup %du\n' % x['dup_' + d]
            t = 'x%d' % r.getrandbits(24)
            x['k'] = B.stub_value('kern-%s.dll' % t, 'kern_fn'); x['u'] = B.stub_value('crt-%s.dll' % t, 'crt_fn')
            self.files['%s/Lib/%s/um/x64/kernel32.lib' % (self.root, s)] = B.implib('kern-%s.dll' % t, [('kern_fn', 1, False), ('both_fn', 2, False)])
            self.files['%s/Lib/%s/ucrt/x64/ucrt.lib' % (self.root, s)] = B.implib('crt-%s.dll' % t, [('crt_fn', 1, False)])
            x['e'] = B.stub_value('um-%s.dll' % t, 'extra_fn'); x['both'] = B.stub_value('um-%s.dll' % t, 'twice_fn'); x['both2'] = B.stub_value('u2-%s.dll' % t, 'twice_fn')
            self.files['%s/Lib/%s/um/x64/extra.lib' % (self.root, s)] = B.implib('um-%s.dll' % t, [('extra_fn', 1, False), ('twice_fn', 3, False)])
            self.files['%s/Lib/%s/ucrt/x64/extra.lib' % (self.root, s)] = B.implib('u2-%s.dll' % t, [('extra_fn', 1, False), ('twice_fn', 3, False)])
        self.std = mode in ('std', 'gone', 'nolib'); self.obj = mode == 'obj'
        # what the program asks for: headers of the SDK and libraries of the SDK
        if mode == 'plain': self.uses = []
        else: self.uses = [d for d in DIRS + ['dup'] if r.random() < .7 and (self.std or self.obj or d != 'ucrt')]
        if not (self.std or self.obj) and self.dup == ['ucrt']: self.uses = [d for d in self.uses if d != 'dup']
        self.calls = [c for c in ('k', 'u', 'e') if r.random() < .7] if mode in ('std', 'gone', 'nolib') else [c for c in ('k', 'e') if r.random() < .6] if mode == 'nostd' else []
        nu = r.choice([1, 2, 3, 4]); txt = [[] for _ in range(nu)]; inc = [[] for _ in range(nu)]; ops = []
        for i, d in enumerate(self.uses):
            for u in (range(nu) if r.random() < .4 else [r.randrange(nu)]):
                inc[u].append('#include %s' % (r.choice(['<%s>', '<%s>', '"%s"']) % ('dup.h' if d == 'dup' else 'who_%s.h' % d)))
                if not any(o == d for o, n in ops): ops.append((d, 'f_%s' % d)); txt[u].append('unsigned f_%s(unsigned h){ return (h ^ WHO_%s) * 3u; }' % (d, d))
        for c in self.calls:
            u = r.randrange(nu); n = {'k': 'kern_fn', 'u': 'crt_fn', 'e': 'extra_fn'}[c]
            if c == 'e' or (c == 'k' and mode == 'nostd'): inc[r.randrange(nu)].append('#pragma comment(lib, "%s")' % {'e': 'extra', 'k': 'kernel32'}[c])
            txt[u].append('unsigned %s(unsigned); unsigned f_%s(unsigned h){ return %s(h) * 3u; }' % (n, c, n)); ops.append((c, 'f_' + c))
        self.ops = [o for o, n in ops]
        u = r.randrange(nu)
        txt[u].append(' '.join('unsigned %s(unsigned);' % n for o, n in ops) + ' int go(void){ unsigned h = 7; %s return (int)h; }' % ' '.join('h = %s(h);' % n for o, n in ops))
        for x in inc: r.shuffle(x)
        self.texts = {'u%d.c' % i: '\n'.join(inc[i] + txt[i]) + '\n' for i in range(nu)}
    def result(self, v, dup=None):
        h = 7
        ds = [d for d in self.dup if self.std or self.obj or d != 'ucrt']
        for o in self.ops:
            x = self.val[v] if v else {}
            if o in ('k', 'u', 'e'): h = (h + x[o]) * 3 & M32
            elif o == 'dup': h = ((h ^ x['dup_' + (dup or ds[0])]) * 3) & M32
            else: h = ((h ^ x[o]) * 3) & M32
        return h
    def results(self):
        """all results of programs that use one version, with headers found under one of their names"""
        return {self.result(v, d): '.'.join(map(str, v)) for v in self.vers for d in (self.dup if 'dup' in self.ops else [None])}

@prop
class P19(Prop):
    id = 'P19'
    cases = (4000, 60000)
    drop_jobs = True
    rule = ('a case is a machine with 1..8 installed versions of the SDK (any numbers, some without the option for x64, some without libraries) and a program of 1..4 units that uses its headers and libraries, compiled in 4 runs with different orders of versions and directory entries, memory contents and schedules with 1..4 threads, and in 3 runs with failing registry queries, listings and opens; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['std', 'std', 'std', 'nostd', 'nostd', 'plain', 'obj', 'gone', 'nolib', 'nohdr'])
        g = Sdk(r, 'std' if mode == 'nohdr' else mode); f = dict(g.texts); how = None; lost = None; kits = g.kits; dirs = g.dirs; files = dict(g.files)
        if mode == 'gone' or (mode == 'plain' and r.random() < .7):
            how = r.choice(['root', 'value', 'versions', 'options', 'file', 'long'])
            if how == 'long' : kits = 'C:\\' + 'x' * r.choice([256, 257, 258, 259, 300, 600])
        if mode == 'nolib' and g.pick:
            lost = r.choice(['ucrt.lib', 'kernel32.lib', 'both', 'extra']); s = '/Lib/%s/' % '.'.join(map(str, g.pick))
            for k in [k for k in files if s in k and (k.endswith('/' + lost) or (lost == 'both' and k.endswith(('ucrt.lib', 'kernel32.lib'))) or (lost == 'extra' and k.endswith('extra.lib')))]: del files[k]
            if lost == 'both': lost = 'ucrt.lib'
            if lost == 'extra' and 'e' not in g.ops: lost = None
        if mode == 'nohdr' and g.pick:
            x = [d for d in g.ops if d in DIRS]
            if x:
                lost = r.choice(x); s = '/Include/%s/%s/' % ('.'.join(map(str, g.pick)), lost)
                whole = r.random() < .5; lost = 'who_%s.h' % lost
                for k in [k for k in files if s in k and (whole or k.endswith(lost))]: del files[k]
                if whole: dirs = [d for d in dirs if not s.startswith(d + '/')]
                lost = [lost] + (['dup.h'] if whole and 'dup' in g.ops and g.dup == [s.split('/')[-2]] else [])
        f.update(files)
        dbg = r.choice(['', ' -nodebug']); out = {'obj': '-obj -out a.obj', 'nostd': '-nostdlib -entry go -out a.exe', 'plain': '-nostdlib -entry go -out a.exe'}.get(mode, '-entry go -out a.exe')
        if mode == 'std' and r.random() < .2: out = '-dll ' + out.replace('a.exe', 'a.dll')
        src = list(g.texts)
        def one(tc, faults=None, nvers=None):
            vs = list(g.vers.values()); r.shuffle(vs)
            if how == 'versions': vs = []
            if how == 'options': vs = [(n, r.choice(['0', 'none', 'nokey'])) for n, st in vs]
            k = '' if how == 'root' else '-' if how == 'value' else kits
            if how == 'file': k = 'C:\\work\\u0.c'
            ex = [['dir', d] for d in dirs] + [['kits', k], ['kitszeros', g.zeros], ['sdkver', ','.join('%s=%s' % v for v in vs)], ['memseed', r.getrandbits(16)]]
            if r.random() < .7: ex.append(['enumseed', r.getrandbits(30)])
            return job(f, 'hlc.exe %s %s -quiet%s -thread_count %d' % (' '.join(src), out, dbg, tc), *ex, sched=sched(r) if tc > 1 else None, faults=faults)
        js = {'s%d' % j: one(r.choice([1, 1, 2, 3, 4])) for j in range(4)}
        b = self.run(js['s0']); n = {}
        for l in b['oslog'].split('\n'):
            x = l.split(' ', 3)
            if len(x) > 3 and x[0] in ('regopen', 'regquery', 'regenum', 'findfirst', 'attr', 'fileinfo', 'open', 'openr', 'read'): n.setdefault(x[0], []).append(int(x[1]))
        for j in range(3):
            if not n: break
            ff = []
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                k = r.choice([k for k in n if k.startswith('reg')] * 2 + list(n)); ff.append((k, r.choice(n[k]), {'read': 'io'}.get(k, 'denied')))
            js['f%d' % j] = one(r.choice([1, 2, 3]), ff)
        res = g.results() if g.ops else {7: 'any'}
        want = g.result(g.pick) if (g.pick and not how) or not g.ops else None
        bad = None
        if mode in ('std', 'gone', 'nolib', 'nohdr') and (how or not g.pick): bad = ['ucrt.lib']
        elif lost: bad = [lost] if isinstance(lost, str) else lost
        elif (how or not g.pick) and g.ops: bad = ['who_%s.h' % o if o in DIRS else 'dup.h' if o == 'dup' else 'kernel32' if o == 'k' else 'extra' for o in g.ops]
        return {'scenario': mode + (' ' + how if how else ''), 'jobs': js, 'params': {'mode': mode, 'bad': bad, 'want': want, 'results': [[k, v] for k, v in res.items()], 'out': 'c:/work/a.' + ('obj' if mode == 'obj' else 'dll' if '-dll' in out else 'exe'),
                'ver': '.'.join(map(str, g.pick)) if g.pick and not how else None}}
    def check(self, case, run):
        p = case['params']; first = None; res = dict(p['results'])
        for n in sorted(case['jobs'], reverse=True):
            q = run(n); f = get(case['jobs'][n], 'faults'); tag = '%s (%s)' % (n, f.strip().replace('\n', ';')) if f else n
            if q['status'] != 'exit': return q['status'], '%s: %s' % (tag, bad_end(q))
            txt = q['stdout'] + q.get('stderr', ''); hit = bool(q['faults'])
            if q['code']:
                if not re.search(r'Error|[Uu]nable|could not|Could not', txt): return 'silent', '%s: exit code %d without a message: %s' % (tag, q['code'], tail(txt))
                if hit: run.probe('fault reported'); continue
                if not p['bad']: return 'rejected', '%s: a valid program is rejected (newest version %s): %s' % (tag, p['ver'], tail(txt))
                if not any(x in txt for x in p['bad']): return 'message', '%s: %s cannot be found, and is not mentioned: %s' % (tag, ' or '.join(p['bad']), tail(txt))
                d = sorted(l for l in txt.split('\n') if l.strip() and ('Could not load' in l or 'Implicit system' in l))
                if first is not None and d != first: return 'message-differs', '%s: two runs on the same machine say different things: %s' % (tag, [x for x in d + first if x not in d or x not in first][:4])
                first = d; run.probe('absence reported')
                continue
            if not hit and p['bad']: return 'accepted', '%s: %s does not exist, exit code 0' % (tag, ' or '.join(p['bad']))
            data = q['files'].get(p['out'])
            if data is None: return 'missing', '%s: exit code 0, but no %s' % (tag, p['out'])
            if p['mode'] == 'obj':
                from props_link import call
                t = tempfile.mkdtemp(prefix='hsim-link-')
                try:
                    open(t + '/a.obj', 'wb').write(data)
                    rc, o = call(['lld-link', '/entry:go', '/nodefaultlib', '/subsystem:console', '/threads:1', '/Brepro', '/out:a.exe', 'a.obj', '/force:unresolved'], t)
                    if rc: return 'link', '%s: the object does not link: %s' % (tag, o.replace('\n', ' | ')[:400])
                    data = open(t + '/a.exe', 'rb').read()
                finally: shutil.rmtree(t, ignore_errors=True)
            z = run_exe(run, data, impstub=1)
            if z['status'] != 'exit': return 'program-' + z['status'], '%s: the program ended with %s %s' % (tag, z['status'], z['detail'][:200])
            c = z['code'] & M32
            if hit:
                if c not in res: return 'mixed', '%s: exit code 0, but the program is not that of any one version' % tag
                if c != p['want'] and not any(k.startswith(('reg', 'attr')) for k in q['faults']): return 'result', '%s: exit code 0, but the program was built from version %s, not %s' % (tag, res[c], p['ver'])
                if c != p['want'] and not any(k.startswith('reg') for k in q['faults']) and 'Warning' not in txt: return 'unsaid', '%s: a directory of the SDK was ignored without a word' % tag
                run.probe('fault, the same program' if c == p['want'] else 'fault, another version')
            else:
                if c != p['want']: return 'version', '%s: the program was built from version %s, the newest is %s' % (tag, res.get(c, 'of several'), p['ver'])
                run.probe('version compared')
        return None
