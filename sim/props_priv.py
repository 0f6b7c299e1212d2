"""P06: names private to a unit, against an executable model of which entity each name means in each unit."""
import struct
from core import job, sched
from props import Prop, prop, tail, run_exe
import binfmt as B

M = 0xffffffff
POOL = ['get', 'init', 'state', 'tab', 'add', 'cfg', 'next', 'v', 'T0', 'lim', 'helper', 'buf', 'x1', 'count', 'step', 'do_it']
WID = {'unsigned': 32, 'unsigned short': 16, 'unsigned char': 8}

class Priv:
    """each name of a small pool is, per unit: private (function, variable, array, pointer, macro), the shared one, or nothing. An entity is (unit or '*', name)."""
    def __init__(self, r, tier, bad):
        self.r = r; self.nu = r.choice([2, 2, 3, 3, 4, 5] if tier == 'quick' else [2, 3, 4, 5, 6, 8]); self.names = r.sample(POOL, r.choice([2, 3, 3, 4, 5, 6])); self.st = {}; self.ent = {}; self.role = [dict() for _ in range(self.nu)]
        self.hdr = {}; self.bad = None; self.pkp = r.choice([0, 0, .5, .8])
        self.top = [[] for _ in range(self.nu)]; self.seg = [[[], []] for _ in range(self.nu)]; self.two = [r.random() < .4 for _ in range(self.nu)]; self.mac = [set() for _ in range(self.nu)]
        pp = r.choice([.4, .7, .9])
        for i, n in enumerate(self.names):
            sh = r.random() < .45; own = r.randrange(self.nu) if sh else None
            for u in range(self.nu):
                if u == own: self.role[u][n] = '*'; self.ent['*', n] = {'u': u, 'k': None}
                elif r.random() < pp: self.role[u][n] = u; self.ent[u, n] = {'u': u, 'k': None}
                elif sh: self.role[u][n] = '*'
                else: self.role[u][n] = None
        self.pk = []; self.pkt = []                 # #pragma pack is a state of the unit: in effect from there on, also inside the bodies
        for u in range(self.nu):
            v, st_, T = 16, [], []
            for q in range(2):
                t = []
                if r.random() < self.pkp and (q == 0 or self.two[u]):
                    for _ in range(r.choice([1, 1, 1, 2, 3])):
                        k = r.randrange(6); a = r.choice([1, 1, 2, 4, 8])
                        if k == 0: t.append('#pragma pack(%d)' % a); v = a
                        elif k == 1: t.append('#pragma pack(push, %d)' % a); st_.append(v); v = a
                        elif k == 2: t.append('#pragma pack(push)'); st_.append(v)
                        elif k == 3 and st_: t.append('#pragma pack(pop)'); v = st_.pop()
                        elif k == 4: t.append('__pragma(pack(push, %d))' % a); st_.append(v); v = a
                        elif k == 5 and r.random() < .3: t.append('#pragma pack()'); v = 16
                T.append(t)
                if q == 0: first = v
            self.pk.append((first, v)); self.pkt.append(T)
        for (w, n), e in self.ent.items():
            e['m'] = w != '*' and r.random() < .25
            if e['m']: self.mac[e['u']].add(n)
        for i, n in enumerate(self.names):          # entities in the order of their rank: each refers only to lower ones
            for (w, m), e in list(self.ent.items()):
                if m == n: self.define(w, n, i, e)
        self.acc = []
        for u in range(self.nu):
            for k in range(r.choice([1, 2, 2, 3, 4])):
                f = 'u%d_a%d' % (u, k); s = r.randrange(2) if self.two[u] else 0; t, c = self.fbody(u, len(self.names), s, ('acc', u, k), r.choice([1, 2, 3, 5])); self.acc.append((f, c)); self.seg[u][s].append('unsigned %s(unsigned x){ %s }' % (f, t))
        self.ptr = []
        for u in range(self.nu):
            for n in self.names:
                w = self.role[u][n]
                if w is not None and self.ent[w, n]['k'] in ('fn', 'var', 'arr', 'pv', 'pf') and r.random() < .6:
                    f = 'u%d_p%d' % (u, len(self.ptr)); self.ptr.append((f, '%s/%s' % (w, n))); self.seg[u][0].append('unsigned long long %s(void){ return (unsigned long long)%s%s; }' % (f, '' if self.ent[w, n]['k'] in ('fn', 'arr') else '&', n))
        if bad: self.mistake()
        self.main()
    # ---- the model: a body is a list of closures r -> r
    def fbody(self, u, rank, s, key, n):
        r = self.r; T = []; C = []
        for q in range(n):
            t, c = self.stmt(u, rank, s, key + (q,)); T.append(t); C.append(c)
        def run(x):
            v = x & M
            for c in C: v = c(v) & M
            return v
        return 'unsigned r = x; %s return r;' % ' '.join(T), run
    def stmt(self, u, rank, s, key):
        r = self.r; c = r.randrange(1, 1 << r.choice([3, 8, 16, 31])); st = self.st
        low = [n for n in self.names[:rank] if self.role[u][n] is not None]
        free = [n for n in self.names if n not in self.mac[u]]
        p = r.random()
        if p < .12 and free:                        # a static local with the name of something else
            n = r.choice(free); st[key] = c; d = r.randrange(1, 99)
            def f(v):
                st[key] = (st[key] + d) & M; return v + st[key]
            return r.choice(['{ static unsigned %s = %du; %s += %du; r += %s; }', '{ static unsigned %s[2] = {7, %du}; %s[1] += %du; r += %s[1]; }'][:1]) % (n, c, n, d, n), f
        if p < .2 and free:
            n = r.choice(free); k = r.randrange(5)
            if k == 0: return '{ unsigned %s = r; %s ^= %du; r += %s; }' % (n, n, c, n), lambda v: v + (v ^ c)
            if k == 1: return '{ struct { unsigned a, %s; } s; s.%s = r ^ %du; r += s.%s; }' % (n, n, c, n), lambda v: v + (v ^ c)
            if k == 2: return 'for(unsigned %s = 0; %s < 3; %s++) r += %s * %du;' % (n, n, n, n, c), lambda v: v + 3 * c
            if k == 3: return '{ enum { %s_%d_%d = %d }; r += %s_%d_%d; }' % (n, u, self.uid(), c & 0xffff, n, u, self.n), lambda v: v + (c & 0xffff)
            return '{ unsigned (*%s)(unsigned) = 0; if(!%s) r ^= %du; }' % (n, n, c), lambda v: v ^ c
        if self.pkp and r.random() < .15: return self.packed(u, s, c)
        if not low: return r.choice([('r = r * 3u + %du;' % c, lambda v: v * 3 + c), ('r ^= %du;' % c, lambda v: v ^ c)])
        n = r.choice(low); w = self.role[u][n]; e = self.ent[w, n]; k = e['k']; K = (w, n)
        pre = ''
        if w == '*' and e['u'] != u and n not in self.mac[u] and r.random() < .3: pre = self.proto(e, n)
        if k == 'fn':
            g = lambda v: e['run'](v)
            q = r.randrange(6)
            if q == 0: return '{ %s r += %s(r ^ %du); }' % (pre, n, c), lambda v: v + g((v ^ c) & M)
            if q == 1: return '{ %s r = (%s)(r); }' % (pre, n), lambda v: g(v)
            if q == 2: return '{ %s unsigned (*f)(unsigned) = %s; r ^= f(r + %du); }' % (pre, n, c), lambda v: v ^ g((v + c) & M)
            if q == 3: return '{ %s static unsigned (*f)(unsigned) = %s; r ^= f(r + %du); }' % (pre, n, c), lambda v: v ^ g((v + c) & M)
            if q == 4: return '{ %s if(%s(r) & 1) r += %du; else r ^= %du; }' % (pre, n, c, c), lambda v: v + c if g(v) & 1 else v ^ c
            return '{ %s unsigned (*f[2])(unsigned) = {0, &%s}; r += f[1](%du); }' % (pre, n, c), lambda v: v + g(c)
        if k == 'var':
            b = (1 << WID[e['t']]) - 1; T = e['t']; q = r.randrange(7)
            def add(v): st[K] = (st[K] + c) & b; return v
            def put(v): st[K] = v & b; return v
            def xr(v): st[K] = (st[K] ^ v) & b; return v + st[K]
            def inc(v): st[K] = (st[K] + 1) & b; return v ^ st[K]
            if q == 0: return '{ %s r += %s; }' % (pre, n), lambda v: v + st[K]
            if q == 1: return '{ %s %s += (%s)%du; }' % (pre, n, T, c), add
            if q == 2: return '{ %s %s = (%s)r; }' % (pre, n, T), put
            if q == 3: return '{ %s %s *p = &%s; *p ^= (%s)r; r += *p; }' % (pre, T, n, T), xr
            if q == 4: return '{ %s static %s *p = &%s; *p ^= (%s)r; r += *p; }' % (pre, T, n, T), xr
            if q == 5: return '{ %s ++%s; r ^= %s; }' % (pre, n, n), inc
            return '{ %s r += (unsigned)sizeof(%s); }' % (pre, n), lambda v: v + WID[T] // 8
        if k == 'arr':
            L = e['n']; i = r.randrange(L); q = r.randrange(5)
            def wr(v): st[K][i] = (st[K][i] ^ v) & M; return v
            if q == 0: return '{ %s r += %s[r %% %du]; }' % (pre, n, L), lambda v: v + st[K][v % L]
            if q == 1: return '{ %s %s[%d] ^= r; }' % (pre, n, i), wr
            if e.get('z') and r.random() < .3: return 'r += %s + (unsigned)sizeof(%s_);' % (e['z'], e['z']), lambda v: v + 8 * L
            if q == 2 and not (pre and not e['full']): return '{ %s r += (unsigned)sizeof(%s); }' % (pre if e['full'] else '', n), lambda v: v + 4 * L
            if q == 3: return '{ %s unsigned *p = %s + %d; r ^= *p; }' % (pre, n, i), lambda v: v ^ st[K][i]
            return '{ %s static unsigned *p = &%s[%d]; r ^= *p; }' % (pre, n, i), lambda v: v ^ st[K][i]
        if k == 'pv':
            def w1(v): st[e['to']] = (st[e['to']] + c) & M; return v
            return ('{ %s r += *%s; }' % (pre, n), lambda v: v + st[e['to']]) if r.random() < .5 else ('{ %s *%s += %du; }' % (pre, n, c), w1)
        if k == 'pf': return '{ %s r += %s(r ^ %du); }' % (pre, n, c), lambda v: v + e['run']((v ^ c) & M)
        if k == 'mac': return ('r = r * 5u + %s;' % n, lambda v: v * 5 + e['val'][s]()) if r.random() < .7 else ('{ unsigned z[2] = {%s, 1}; r ^= z[0]; }' % n, lambda v: v ^ (e['val'][s]() & M))
        if k == 'fmac': return 'r += %s(r ^ %du);' % (n, c), lambda v: v + e['val'][s]((v ^ c) & M)
        raise Exception(k)
    def packed(self, u, s, c):
        r = self.r; p = self.pk[u][s]; o = 0; al = 1; F = []
        if r.random() < .15: q = r.choice([1, 2, 4]); pre, post, p = '__pragma(pack(push, %d)) ' % q, ' __pragma(pack(pop))', q
        else: pre = post = ''
        for i in range(r.choice([1, 2, 3, 5])):
            t, z = r.choice([('unsigned char', 1), ('unsigned short', 2), ('unsigned', 4), ('unsigned long long', 8), ('double', 8), ('void *', 8)]); k = r.choice([1, 1, 1, 3]); a = min(z, p); o = (o + a - 1) // a * a; al = max(al, a); F.append((t, 'm%d' % i, k, o)); o += z * k
        size = (o + al - 1) // al * al; m = r.choice(F)
        d = 'struct%s { %s }' % ('%s', ' '.join('%s %s%s;' % (t, n, '' if k == 1 else '[%d]' % k) for t, n, k, _ in F)); K = size * 256 + m[3]
        z = 'W%d_%d' % (u, self.uid())
        if r.random() < .5 and not pre: self.seg[u][s].append(d % (' ' + z) + ';'); return 'r += (unsigned)sizeof(struct %s) * 256u + (unsigned)(unsigned long long)&((struct %s *)0)->%s;' % (z, z, m[1]), lambda v: v + K
        return '{ %s%s z;%s r += (unsigned)sizeof(z) * 256u + (unsigned)((char *)&z.%s - (char *)&z); }' % (pre, d % r.choice(['', ' ' + z]), post, m[1]), lambda v: v + K
    n = 0
    def uid(self): self.n += 1; return self.n
    def proto(self, e, n):
        k = e['k']
        return {'fn': 'extern unsigned %s(unsigned);' % n, 'var': 'extern %s %s;' % (e.get('t'), n), 'arr': 'extern unsigned %s[%s];' % (n, e.get('n')), 'pv': 'extern unsigned *%s;' % n, 'pf': 'extern unsigned (*%s)(unsigned);' % n}[k]
    def define(self, w, n, i, e):
        r = self.r; u = e['u']; K = (w, n); S = 'static ' if w != '*' else ''; st = self.st; c = r.randrange(1, 1 << r.choice([3, 8, 16, 31])); s = r.randrange(2) if self.two[u] else 0
        low = [m for m in self.names[:i] if self.role[u][m] is not None]
        def kind(m): return self.ent[self.role[u][m], m]
        ks = ['fn', 'fn', 'fn', 'var', 'var', 'arr']
        fs = [m for m in low if kind(m)['k'] == 'fn']; vs = [m for m in low if kind(m)['k'] == 'var' and kind(m)['t'] == 'unsigned']
        if fs: ks.append('pf')
        if vs: ks.append('pv')
        if w != '*': ks += ['hdr', 'hdr']
        k = r.choice(['mac', 'fmac']) if e['m'] else r.choice(ks); out = self.seg[u][s]
        if k == 'hdr':
            k = r.choice(['fn', 'var']); h = 'h_%s_%s.h' % (n, k)
            if h not in self.hdr:
                g = r.choice(['once', 'ifndef', 'none']); b = 'static unsigned %s(unsigned x){ static unsigned k = UNITC; k += 3u; return x * 5u + k + UNITC; }\n' % n if k == 'fn' else 'static unsigned %s = UNITC;\n' % n
                self.hdr[h] = (g, {'once': '#pragma once\n%s', 'ifndef': '#ifndef H_%s\n#define H_%s 1\n%%s#endif\n' % (n.upper(), n.upper()), 'none': '%s'}[g] % b)
            inc = '#include "%s"\n' % h; self.top[u].append('#define UNITC %du\n%s#undef UNITC' % (c, inc * (r.choice([1, 2]) if self.hdr[h][0] != 'none' else 1)))
            e['k'] = k
            if k == 'var': e['t'] = 'unsigned'; st[K] = c; return
            st['k', u, n] = c
            def run(x):
                st['k', u, n] = (st['k', u, n] + 3) & M; return (x * 5 + st['k', u, n] + c) & M
            e['run'] = run; return
        e['k'] = k
        if k == 'fn':
            t, f = self.fbody(u, i, s, ('fn', w, n), r.choice([1, 2, 2, 3])); e['run'] = f; q = S + (r.choice(['', '', 'inline ', '__forceinline ', '__declspec(noinline) ']) if S else '')
            d = '%sunsigned %s(unsigned x){ %s }' % (q, n, t)
            if S and r.random() < .12: d = r.choice(['inline ', '__forceinline ']) + d[len(q):]; out.append(d); return
            if S and r.random() < .12: out.append('static unsigned %s(unsigned x);\n%sunsigned %s(unsigned x){ %s }' % (n, r.choice(['', '', 'inline ', '__declspec(noinline) ']), n, t)); return
            if r.random() < .3: out.append('%sunsigned %s(unsigned%s);' % (S, n, r.choice(['', ' x', ' other'])))
            out.append(d)
        elif k == 'var':
            e['t'] = r.choice(['unsigned', 'unsigned', 'unsigned short', 'unsigned char']); st[K] = c & ((1 << WID[e['t']]) - 1)
            if r.random() < .2: st[K] = 0; out.append('%s%s %s;' % (S, e['t'], n))
            else: out.append('%s%s %s = %du;' % (S, e['t'], n, st[K]))
            if r.random() < .15: out.append('%s%s %s;' % (S, e['t'], n))
        elif k == 'arr':
            L = e['n'] = r.choice([1, 2, 3, 5, 8]); st[K] = [r.getrandbits(32) for _ in range(L)]; e['full'] = r.random() < .5
            L_ = ['%du' % x for x in st[K]]
            if r.random() < .4:                     # an element that is only known once something later in the unit is
                j = r.randrange(L); z = 'K%d_%d' % (u, self.uid()); st[K][j] &= 0xffff; L_[j] = z; out.append('enum { %s = %d };' % (z, st[K][j]))
            out.append('%sunsigned %s[%s] = {%s};' % (S, n, L if e['full'] else '', ', '.join(L_)))
            if r.random() < .2: out.append('%sunsigned %s[%s];' % (S, n, L))
            if S and r.random() < .3: z = 'Z%d_%d' % (u, self.uid()); out.append('enum { %s = sizeof(%s) }; unsigned char %s_[%s];' % (z, n, z, z)); e['z'] = z
        elif k == 'pv':
            m = r.choice(vs); e['to'] = (self.role[u][m], m); out.append('%sunsigned *%s = &%s;' % (S, n, m))
        elif k == 'pf':
            m = r.choice(fs); x = kind(m); e['run'] = lambda v: x['run'](v); out.append('%sunsigned (*%s)(unsigned) = %s%s;' % (S, n, r.choice(['', '&']), m))
        elif k in ('mac', 'fmac'):
            e['val'] = []; texts = []
            for q in range(2):
                d = r.randrange(1, 1 << r.choice([3, 16, 31]))
                if q == 1 and (not self.two[u] or r.random() < .4): texts.append(None); e['val'].append(e['val'][0]); continue
                ref = r.choice(fs if k == 'fmac' else vs) if (fs if k == 'fmac' else vs) and r.random() < .5 else None
                if k == 'mac':
                    if ref: texts.append('#define %s (%s ^ %du)' % (n, ref, d)); R = (self.role[u][ref], ref); e['val'].append(lambda R=R, d=d: st[R] ^ d)
                    else: texts.append('#define %s %du' % (n, d)); e['val'].append(lambda d=d: d)
                elif ref: texts.append('#define %s(a) (%s((a) + %du))' % (n, ref, d)); R = kind(ref); e['val'].append(lambda v, R=R, d=d: R['run']((v + d) & M))
                else: texts.append('#define %s(a) ((a) * 7u + %du)' % (n, d)); e['val'].append(lambda v, d=d: v * 7 + d)
            self.macs.setdefault(u, [[], []]); self.macs[u][0].append(texts[0])
            if texts[1]: self.macs[u][1].append('#undef %s\n%s' % (n, texts[1]))
    @property
    def macs(self):
        return self.__dict__.setdefault('_macs', {})
    def mistake(self):
        """a unit uses a name that only other units define, privately"""
        r = self.r; c = [(u, n) for u in range(self.nu) for n in self.names if self.role[u][n] is None and any(self.role[v][n] == v for v in range(self.nu))]
        if not c: return
        u, n = r.choice(c); k = r.choice(['call', 'read', 'proto', 'extern', 'init', 'addr', 'block', 'sizeof'])
        t = {'call': 'unsigned bad(unsigned x){ return %s(x) + 1; }', 'read': 'unsigned bad(unsigned x){ return x + %s; }', 'proto': 'unsigned %s(unsigned); unsigned bad(unsigned x){ return %s(x); }', 'extern': 'extern unsigned %s; unsigned bad(unsigned x){ return %s + x; }',
             'init': 'unsigned *bad_p = &%s; unsigned bad(unsigned x){ return *bad_p; }', 'addr': 'unsigned bad(unsigned x){ return (unsigned)(unsigned long long)&%s; }', 'block': 'unsigned bad(unsigned x){ extern unsigned %s(unsigned); return %s(x); }', 'sizeof': 'unsigned bad(unsigned x){ return (unsigned)sizeof(%s); }'}[k]
        self.seg[u][1 if self.two[u] else 0].append(t.replace('%s', n)); self.bad = [u, n, k]
    def many(self):
        """more private names and macros than the tables of a unit start with, of which all but one unit may have the same"""
        r = self.r; N = r.choice([140, 150, 280, 300, 560]); R = r.randrange(3)
        own = r.randrange(self.nu) if R == 0 else None; self.pre = [[] for _ in range(self.nu)]; sh = r.random() < .5
        for u in range(self.nu):
            mac = R == 1 and r.random() < .6; L = []; val = {}
            if not mac and r.random() < .3: continue
            for q in range(N):
                v = val[q] = r.getrandbits(16)
                if mac: L.append('#define fil%d_ %du' % (q, v))
                elif u == own: L.append('unsigned fil%d_ = %d;' % (q, v))
                else: L.append('static unsigned fil%d_%s' % (q, ' = %d;' % v if r.random() < .7 else '(unsigned x);static unsigned fil%d_(unsigned x){ return x + %du; }' % (q, v))); val[q] = (v, '(' in L[-1])
            if mac and r.random() < .5:
                for q in r.sample(range(N), N // 5): v = val[q] = r.getrandbits(16); L.append('#undef fil%d_\n#define fil%d_ %du' % (q, q, v))
            elif not mac and sh: r.shuffle(L)
            self.pre[u] = L; s = 1 if self.two[u] else 0; f = 'u%d_many' % u; qs = r.sample(range(N), 20); t = []; c = []
            for q in qs:
                v = val[q]
                if isinstance(v, tuple) and v[1]: t.append('x = fil%d_(x * 3u);' % q); c.append((3, v[0]))
                else: t.append('x = x * 5u + fil%d_;' % q); c.append((5, v[0] if isinstance(v, tuple) else v))
            def run(x, c=c):
                for m, a in c: x = (x * m + a) & M
                return x
            self.seg[u][s].append('unsigned %s(unsigned x){ %s return x; }' % (f, ' '.join(t))); self.acc += [(f, run)] * 3
    def group(self):
        """declarations of several things at once, which all but one unit may make private"""
        r = self.r; own = r.randrange(self.nu) if r.random() < .4 else None; N = r.choice([2, 3, 4, 6]); one = r.choice(['unsigned', 'unsigned', 'unsigned short'])
        for u in range(self.nu):
            if r.random() < .2: continue
            D = []; val = {}; fn = {}; T = []; C = []; st = self.st
            for q in r.sample(range(N), N) if r.random() < .5 else range(N):
                n = 'grp%d_' % q; k = r.randrange(5); v = r.getrandbits(16); K = ('grp', u, q); a = r.randrange(1, 99)
                if k == 0: D.append(n); st[K] = 0
                elif k == 1: D.append('%s[3] = {1, (%du), 2}' % (n, v)); T.append('x = x * 7u + %s[1];' % n); C.append(lambda x, v=v: x * 7 + v); continue
                elif k == 2 and [z for z in val]: m = r.choice(list(val)); D.append('*%s = &grp%d_' % (n, m)); T.append('x = x * 5u + *%s;' % n); C.append(lambda x, K=('grp', u, m): x * 5 + st[K]); continue
                elif k == 3: D.append('%s(unsigned%s)' % (n, r.choice(['', ' x']))); fn[n] = v; T.append('x = x * 3u + %s(x);' % n); C.append(lambda x, v=v, o=one: x * 3 + ((x + v) & (M if o == 'unsigned' else 0xffff))); continue
                else: D.append('%s = %s' % (n, r.choice(['%du', '(%du)', '%du + 0', '(unsigned[]){%du}[0]', '(sizeof(int[2]), %du)'][:3]) % v)); st[K] = v
                val[q] = 1; T.append('%s += %du; x ^= %s;' % (n, a, n))
                def f(x, K=K, a=a, o=one): st[K] = (st[K] + a) & (M if o == 'unsigned' else 0xffff); return x ^ st[K]
                C.append(f)
            s = r.randrange(2) if self.two[u] else 0; q = '' if u == own else r.choice(['static ', 'static ', 'static ', one + ' static ']); t = (q if one in q else q + one + ' ') + ', '.join(D) + ';'
            self.seg[u][s].append(t)
            for n, v in fn.items(): self.seg[u][s].append('%s%s %s(unsigned x){ return (%s)(x + %du); }' % ('' if u == own else 'static ', one, n, one, v))
            if r.random() < .3 and fn: self.seg[u][s].append('%s%s %s;' % ('' if u == own else 'static ', one, ', '.join('%s(unsigned)' % z for z in fn)))
            def run(x, C=C):
                for c in C: x = c(x) & M
                return x
            self.seg[u][s].append('unsigned u%d_grp(unsigned x){ %s return x; }' % (u, ' '.join(T))); self.acc += [('u%d_grp' % u, run)] * 2
    pre = None
    def main(self):
        r = self.r; ops = []; self.expected = []; B_ = []
        if r.random() < .25: self.group()
        if r.random() < .12: self.many()
        for _ in range(r.choice([4, 8, 16, 30])):
            f, c = r.choice(self.acc); x = r.getrandbits(32); ops.append('H[%d] = %s(%du);' % (len(self.expected), f, x)); self.expected.append(c(x))
        for i, (f, _) in enumerate(self.ptr): ops.append('P[%d] = %s();' % (i, f))
        if self.bad: ops.append('H[0] += bad(1);')
        n = len(self.expected); m = len(self.ptr) + 1
        H = '#pragma once\n__declspec(dllimport) int WriteFile(void *, void *, unsigned, unsigned *, void *);\n__declspec(dllimport) void *GetStdHandle(unsigned);\n'
        if r.random() < .5: H += ''.join('unsigned %s(unsigned);\n' % f for f, _ in self.acc) + ''.join('unsigned long long %s(void);\n' % f for f, _ in self.ptr) + ('unsigned bad(unsigned);\n' if self.bad else '')
        U = ['#include "p.h"', 'unsigned H[%d]; unsigned long long P[%d];' % (n, m), 'int _start(void){ unsigned w;\n    %s\n    void *o = GetStdHandle((unsigned)-11); WriteFile(o, H, sizeof(H), &w, 0); WriteFile(o, P, sizeof(P), &w, 0); return 0; }' % '\n    '.join(ops)]
        self.files = {'p.h': H, 'k.lib': B.implib('kernel32.dll', [(x, 0, False) for x in ('WriteFile', 'GetStdHandle')])}
        for h, (_, t) in self.hdr.items(): self.files[h] = t
        self.units = ['m.c']; self.files['m.c'] = '\n'.join(U) + '\n'
        for u in range(self.nu):
            a, b = self.seg[u]
            if r.random() < .12:                    # more names than a table starts with
                for q in range(r.choice([20, 140, 140, 270])): a.append(r.choice(['static unsigned f%d_;', 'static unsigned f%d_(unsigned);', 'extern unsigned e%d_;', 'typedef unsigned t%d_;']) % q if (q % 5) else 'typedef unsigned g%d_%d;' % (u, q))
            r.shuffle(a); r.shuffle(b); mc = self.macs.get(u, [[], []])
            self.files['u%d.c' % u] = '\n'.join((['#include "p.h"'] if r.random() < .4 else []) + self.top[u] + (self.pre[u] if self.pre else []) + mc[0] + self.pkt[u][0] + a + (mc[1] + self.pkt[u][1] + b if self.two[u] else [])) + '\n'; self.units.append('u%d.c' % u)
        r.shuffle(self.units); self.nh = n; self.np = m

@prop
class P06(Prop):
    id = 'P06'
    cases = (2500, 30000)
    shrink_src = False
    drop_jobs = True
    rule = ('a case is a program of 3..6 units whose private functions, variables, arrays, pointers, macros, static locals and included headers share a small pool of names with each other and with shared entities (one in seven uses a name that is private elsewhere and must be rejected), '
            'compiled by one thread and under 4 seeded schedules with 2..6 threads, each program run and compared with a model; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        g = Priv(r, tier, r.random() < .15); js = {}
        for i in range(5):
            us = g.units[:]
            if r.random() < .5: r.shuffle(us)
            cmd = 'hlc.exe %s -I . -nostdlib -l k -quiet%s -out a.exe -thread_count %d' % (' '.join(us), r.choice(['', ' -nodebug']), r.choice([2, 2, 3, 4, 6]) if i else 1)
            js['s%d' % i if i else 'base'] = job(g.files, cmd, sched=sched(r) if i else None)
        return {'scenario': 'used outside' if g.bad else 'valid', 'jobs': js, 'params': {'expected': g.expected, 'ptr': [x for _, x in g.ptr], 'bad': g.bad}}
    def check(self, case, run):
        p = case['params']
        for n in list(case['jobs']):
            q = run(n)
            if q['status'] != 'exit': continue          # decided by P03
            if p['bad']:
                u, name, k = p['bad']
                if q['code'] == 0: return 'accepted', '%s: u%d.c uses %s, which only other units define, privately (%s), and is accepted' % (n, u, name, k)
                if 'c:/work/a.exe' in q['files']: return 'executable', '%s: rejected, but an executable was written' % n
                if name not in q['stdout']: return 'message', '%s: no message names %s: %s' % (n, name, tail(q['stdout']))
                run.probe('uses outside rejected: ' + k); continue
            if q['code']: return 'rejected', '%s: a valid program is rejected: %s' % (n, tail(q['stdout']))
            e = q['files'].get('c:/work/a.exe')
            if e is None: return 'no-output', '%s: exit code 0 but no executable' % n
            z = run_exe(run, e)
            if z['status'] != 'exit' or z['code']: return 'program-' + z['status'], '%s: the program ended with %s %s %s' % (n, z['status'], z['code'], z['detail'][:200])
            d = z['stdout'].encode('latin-1'); x = p['expected']; m = len(p['ptr'])
            if len(d) != 4 * len(x) + 8 * (m + 1): return 'program-output', '%s: the program wrote %d bytes' % (n, len(d))
            h = struct.unpack_from('<%dI' % len(x), d); P = struct.unpack_from('<%dQ' % m, d, 4 * len(x))
            for i, (a, b) in enumerate(zip(h, x)):
                if a != b: return 'value', '%s: operation %d gave 0x%x, the sources mean 0x%x' % (n, i, a, b)
            w = {}
            for a, k in zip(P, p['ptr']):
                if w.setdefault(k, a) != a: return 'identity', '%s: %s has two addresses' % (n, k)
            if len(set(w.values())) != len(w): return 'identity', '%s: different entities share an address: %s' % (n, sorted(k for k in w if list(w.values()).count(w[k]) > 1))
            run.probe('programs', 1); run.probe('values compared', len(x)); run.probe('addresses compared', m)
        return None
