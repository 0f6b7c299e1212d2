"""Programs made of units that know each other only through one header, so that they can be compiled apart and linked.

The C text is plain enough for an independent compiler (clang) to compile any part of it; the value of the program is computed by a model.
"""
import random
M = 0xffffffff
SC = {'unsigned char': 1, 'unsigned short': 2, 'unsigned': 4, 'unsigned long long': 8}

class Split:
    def __init__(self, r, tier, nu=None, parts=None, huge=None):
        self.r = r
        self.nu = nu or r.choice([1, 2, 2, 3, 4, 6])
        self.np = parts or r.randint(1, min(self.nu, 4))
        self.part = [u if u < self.np else r.randrange(self.np) for u in range(self.nu)]
        r.shuffle(self.part)
        self.size = r.choice([2, 4, 8, 14] + ([40] if tier == 'thorough' else []))
        self.hdr = []; self.decl = [[] for _ in range(self.nu)]; self.py = []
        self.vars, self.funcs = [], []          # (name, kind, detail, unit)
        self.defs = {}                          # external name -> unit
        self.anys = {}                          # selectany name -> units
        self.uses = [set() for _ in range(self.nu)]
        self.n = 0; self.tls = False; self.hfn = []; self.hdruse = set()
        self.build(huge)
    def nm(self, p):
        self.n += 1
        # names shorter and longer than the 8 bytes that fit a symbol record
        n = '%s%d' % (p, self.n); q = self.r.choice(['', '', '', '_with_a_long_name', '_x' * 60, 7, 8, 9])
        return n + (q if isinstance(q, str) else 'y' * (q - len(n)))
    def lit(self, k=32): return self.r.choice([0, 1, 255, self.r.getrandbits(k), self.r.getrandbits(k)])
    def build(self, huge):
        r = self.r
        for i in range(r.choice([0, 1, 2])):
            s = self.nm('s'); f = [(('m%d' % j), r.choice(list(SC))) for j in range(r.randint(1, 6))]
            self.hdr.append('struct %s { %s };' % (s, ' '.join('%s %s;' % (t, m) for m, t in f))); self.structs.append((s, f))
        for _ in range(self.size): self.variable()
        for u in range(self.nu):
            self.loc.append([])
            for _ in range(r.choice([0, 1, 2])): self.local(u)
        for _ in range(max(1, self.size // 2)): self.function()
        if huge: self.huge(huge)
        self.main()
        for d in self.decl: r.shuffle(d)
    structs = property(lambda self: self.__dict__.setdefault('_s', []))
    loc = property(lambda self: self.__dict__.setdefault('_l', []))
    # ---- variables ------------------------------------------------------------------------------------------------
    def variable(self):
        r = self.r; u = r.randrange(self.nu); k = r.choice(['u', 'u', 'w', 'a', 'a', 'z', 'c', 'cp', 's', 'f', 'p', 'pp', 'any', 'tent', 'big', 'tls', 'tls', 'al', 'al', 'cl', 'anyp', 'const', 'sp', 'hdrfn', 'tlsp', 'wide', 'wide'])
        n = self.nm('v'); ext = True
        if k == 'u': v = self.lit(); self.decl[u].append('unsigned %s = %du;' % (n, v)); self.hdr.append('extern unsigned %s;' % n); self.py.append('G[%r] = [%d]' % (n, v)); d = None
        elif k == 'w': t = r.choice(list(SC)); v = self.lit(8 * SC[t]) & ((1 << 8 * SC[t]) - 1); self.decl[u].append('%s %s = %dull;' % (t, n, v)); self.hdr.append('extern %s %s;' % (t, n)); self.py.append('G[%r] = [%d]' % (n, v)); d = t
        elif k == 'a': v = [self.lit() for _ in range(r.randint(1, 7))]; self.decl[u].append('%sunsigned %s[%s] = {%s};' % (r.choice(['', '', 'extern ']) if False else '', n, r.choice(['', len(v)]), ', '.join('%du' % x for x in v))); self.hdr.append('extern unsigned %s[%d];' % (n, len(v))); self.py.append('G[%r] = %r' % (n, v)); d = len(v)
        elif k == 'z': d = r.choice([1, 3, 100, 5000]); self.decl[u].append('unsigned %s[%d]%s;' % (n, d, r.choice(['', ' = {0}']))); self.hdr.append('extern unsigned %s[%d];' % (n, d)); self.py.append('G[%r] = [0] * %d' % (n, d))
        elif k == 'tent':
            self.decl[u] += ['unsigned %s;' % n] * r.choice([1, 2]); self.hdr.append('extern unsigned %s;' % n); self.py.append('G[%r] = [0]' % n); d = None; k = 'u'
        elif k == 'big': d = r.choice([300, 3000]); x = r.randint(1, 99); self.decl[u].append('unsigned %s[%d] = {%du, [%d] = %du};' % (n, d, x, d - 1, x)); self.hdr.append('extern unsigned %s[%d];' % (n, d)); self.py.append('G[%r] = [%d] + [0] * %d + [%d]' % (n, x, d - 2, x)); k = 'z'
        elif k in ('c', 'cp'):
            s = ''.join(r.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(r.randint(1, 30))) if r.random() < .7 else r.choice(['a', 'b', 'ab', 'abc', 'xyz']); d = len(s)
            if k == 'c': self.decl[u].append('char %s[] = "%s";' % (n, s)); self.hdr.append('extern char %s[%d];' % (n, d + 1))
            else: self.decl[u].append('char *%s = "%s";' % (n, s)); self.hdr.append('extern char *%s;' % n)
            self.py.append('G[%r] = %r' % (n, [ord(c) for c in s])); k = 'c'
        elif k == 's':
            if not self.structs: return
            s, f = r.choice(self.structs); v = {m: 0 for m, t in f}
            for m, t in f:
                if r.random() < .7: v[m] = self.lit(8 * SC[t]) & ((1 << 8 * SC[t]) - 1)
            self.decl[u].append('struct %s %s = {%s};' % (s, n, ', '.join('.%s = %dull' % x for x in v.items() if x[1]) or '0')); self.hdr.append('extern struct %s %s;' % (s, n)); self.py.append('G[%r] = %r' % (n, v)); d = f
        elif k == 'f':
            d = r.choice(['float', 'double']); v = r.randint(0, 4000) * .25; self.decl[u].append('%s %s = %r%s;' % (d, n, v, 'f' if d == 'float' else '')); self.hdr.append('extern %s %s;' % (d, n)); self.py.append('G[%r] = [%r]' % (n, v))
        elif k == 'p':
            a = [x for x in self.vars if x[1] == 'a']
            if not a: return
            t = r.choice(a); i = r.randrange(t[2]); self.decl[u].append('unsigned *%s = %s;' % (n, r.choice(['&%s[%d]', '%s + %d']) % (t[0], i))); self.use(u, t[0]); self.hdr.append('extern unsigned *%s;' % n); self.py.append('G[%r] = (G[%r], %d)' % (n, t[0], i)); d = None
        elif k == 'pp':
            a = [x for x in self.vars if x[1] == 'a']
            if not a: return
            m = [(lambda t: (t[0], r.randrange(t[2])))(r.choice(a)) for _ in range(r.randint(1, 5))]
            self.decl[u].append('unsigned *%s[] = {%s};' % (n, ', '.join('&%s[%d]' % x for x in m))); [self.use(u, x) for x, _ in m]; self.hdr.append('extern unsigned *%s[%d];' % (n, len(m))); self.py.append('G[%r] = [(G[x], i) for x, i in %r]' % (n, m)); d = len(m)
        elif k == 'any':
            v = self.lit(); self.hdr.append('__declspec(selectany) unsigned %s = %du;' % (n, v)); self.py.append('G[%r] = [%d]' % (n, v)); d = None; k = 'u'; self.anys[n] = 1; ext = False; u = -1
        elif k == 'tls':
            v = self.lit(); th = r.choice(['__declspec(thread)', '_Thread_local']); self.tls = True
            self.decl[u].append('%s unsigned %s%s;' % (th, n, ' = %du' % v if v else '')); self.hdr.append('extern %s unsigned %s;' % (th, n)); self.py.append('G[%r] = [%d]' % (n, v)); d = None; k = 'u'
        elif k == 'al':
            v = self.lit(); al = r.choice([8, 16, 32, 64, 256, 4096]); z = r.random() < .5
            self.decl[u].append('_Alignas(%d) unsigned %s%s;' % (al, n, '' if z else ' = %du' % v)); self.hdr.append('extern unsigned %s;' % n); self.py.append('G[%r] = [%d]' % (n, 0 if z else v)); d = al
        elif k == 'cl':
            v = [self.lit() for _ in range(r.randint(1, 7))]; d = len(v)
            self.decl[u].append('unsigned *%s = (unsigned[]){%s};' % (n, ', '.join('%du' % x for x in v))); self.hdr.append('extern unsigned *%s;' % n); self.py.append('G[%r] = %r' % (n, v))
        elif k == 'anyp':
            a = [x for x in self.vars if x[1] == 'a']
            if not a: return
            t = r.choice(a); i = r.randrange(t[2]); self.hdr.append('__declspec(selectany) unsigned *%s = &%s[%d];' % (n, t[0], i)); self.py.append('G[%r] = (G[%r], %d)' % (n, t[0], i)); d = None; k = 'p'; self.anys[n] = 1; self.hdruse.add(t[0]); ext = False; u = -1
        elif k == 'const':
            v = self.lit(); self.decl[u].append('const unsigned %s = %du;' % (n, v)); self.hdr.append('extern const unsigned %s;' % n); self.py.append('G[%r] = [%d]' % (n, v)); d = 'unsigned'; k = 'w'
        elif k == 'sp':
            if 'struct mix' not in ''.join(self.hdr[:1]): self.hdr.insert(0, 'struct mix { unsigned a; unsigned char b; unsigned *p; char *s; struct mix *next; };')
            a = [x for x in self.vars if x[1] == 'a']; b = [x for x in self.vars if x[1] == 'mix']
            if not a: return
            t = r.choice(a); i = r.randrange(t[2]); v = self.lit(); w = r.randrange(256); nx = r.choice(b)[0] if b and r.random() < .7 else n; st = ''.join(r.choice('klmnop') for _ in range(r.randint(1, 9)))
            self.use(u, t[0]); self.use(u, nx)
            self.decl[u].append('struct mix %s = {%du, %d, %s + %d, "%s", &%s};' % (n, v, w, t[0], i, st, nx)); self.hdr.append('extern struct mix %s;' % n)
            self.py.append('G[%r] = [%d, %d, (G[%r], %d), %r]' % (n, v, w, t[0], i, [ord(x) for x in st])); self.py.append('G[%r].append(G[%r])' % (n, nx)); k = 'mix'; d = None
        elif k == 'tlsp':
            a = [x for x in self.vars if x[1] == 'a']
            if not a: return
            t = r.choice(a); i = r.randrange(t[2]); self.tls = True
            self.decl[u].append('__declspec(thread) unsigned *%s = &%s[%d];' % (n, t[0], i)); self.use(u, t[0]); self.hdr.append('extern __declspec(thread) unsigned *%s;' % n); self.py.append('G[%r] = (G[%r], %d)' % (n, t[0], i)); d = None; k = 'p'
        elif k == 'wide':
            q, t = r.choice([('L', 'unsigned short'), ('u', 'unsigned short'), ('U', 'unsigned')]); s = ''.join(r.choice('abcdefgh') for _ in range(r.randint(1, 8))); d = len(s); k = 'c'
            if r.random() < .3: self.decl[u].append('%s %s[] = %s"%s";' % (t, n, q, s)); self.hdr.append('extern %s %s[%d];' % (t, n, d + 1))
            else: self.decl[u].append('%s *%s = %s"%s";' % (t, n, q, s)); self.hdr.append('extern %s *%s;' % (t, n))
            self.py.append('G[%r] = %r' % (n, [ord(c) for c in s]))
        elif k == 'hdrfn':
            # a static function in the header: every unit has its own, with its own state
            v = self.lit(); self.hdr.append('static unsigned %s(unsigned x){ static unsigned count = %du; count += x | 1u; return count; }' % (n, v)); self.py.append('for u in range(%d): L[u, %r] = [%d]' % (self.nu, n, v)); self.hfn.append(n); return
        self.vars.append((n, k, d, u))
        if ext: self.defs[n] = u
    def local(self, u):
        """entities of the same name in several units"""
        r = self.r; n = r.choice(['local_a', 'local_b', 'local_c_with_a_long_name'])
        if any(x[0] == n for x in self.loc[u]): return
        v = self.lit(); k = r.choice(['v', 'f', 'z', 'o'])
        if k == 'v': self.decl[u].append('static unsigned %s = %du;' % (n, v)); self.py.append('L[%d, %r] = [%d]' % (u, n, v))
        elif k == 'o': k = 'z'; self.decl[u].append('static unsigned %s; static unsigned char %s_odd[%d]; unsigned char *%s_p%d = %s_odd;' % (n, n, r.choice([1, 3, 5]), n, u, n)); self.py.append('L[%d, %r] = [0]' % (u, n))
        elif k == 'z': self.decl[u].append('static unsigned %s;' % n); self.py.append('L[%d, %r] = [0]' % (u, n))
        else: self.decl[u].append('static unsigned %s(unsigned x){ return (x ^ %du) * 3u; }' % (n, v)); self.py.append('L[%d, %r] = lambda x: (x ^ %d) * 3 & M' % (u, n, v))
        self.loc[u].append((n, k))
    def use(self, u, n): self.uses[u].add(n)
    def huge(self, k):
        """more relocations in one section than its header can count"""
        r = self.r; n = self.nm('huge'); u = r.randrange(self.nu); m = r.choice([0xfffe, 0xffff, 0x10000, 0x10001, 0x11170]); b = self.nm('base'); v = [self.lit() for _ in range(5)]
        self.decl[u].append('unsigned %s[5] = {%s};' % (b, ', '.join('%du' % x for x in v))); self.hdr.append('extern unsigned %s[5];' % b); self.defs[b] = u; self.py.append('G[%r] = %r' % (b, v))
        if k == 'funcs':
            m = r.choice([16384, 21846, 22000])
            for i in range(m): self.decl[u].append('unsigned %s_%d(unsigned a){ return a + %du; }' % (n, i, i)); self.defs['%s_%d' % (n, i)] = u
            T = 'unsigned (*%s[])(unsigned) = {%s};' % (n, ', '.join('%s_%d' % (n, i) for i in range(m))); self.hdr.append('extern unsigned (*%s[%d])(unsigned);' % (n, m)); self.decl[u].append(T); self.defs[n] = u
            self.hugestm = u, n, ('for(unsigned i = 0; i < %d; i++) h = h * 3u + %s[i](h);' % (m, n), 'for i in range(%d): h = (h * 3 + h + i) & M' % m)
            return
        if k == 'code':
            # one function has all of the references
            self.decl[u].append('unsigned %s(unsigned h){\n%sreturn h; }' % (n, ''.join('h += %s[%d];%s' % (b, i % 5, '\n' if i % 20 == 0 else ' ') for i in range(m)))); self.hdr.append('unsigned %s(unsigned);' % n); self.defs[n] = u
            self.hugestm = u, n, ('h = %s(h);' % n, 'h = (h + sum(G[%r][i %% 5] for i in range(%d))) & M' % (b, m))
            return
        q = {'tls': '__declspec(thread) ', 'any': '__declspec(selectany) ', 'data': ''}[k]
        ix = [r.randrange(5) for _ in range(m)]; T = '%sunsigned *%s[%d] = {\n%s};' % (q, n, m, ''.join('&%s[%d],%s' % (b, x, '\n' if j % 16 == 0 else ' ') for j, x in enumerate(ix)))
        self.use(u, b)
        if k == 'tls': self.tls = True
        if k == 'any': self.hdr.append(T); self.anys[n] = 1; self.hdruse.add(b)
        else: self.decl[u].append(T); self.hdr.append('extern %sunsigned *%s[%d];' % (q, n, m)); self.defs[n] = u
        self.hugestm = u, n, ('for(unsigned i = 0; i < %d; i++) h = h * 3u + *%s[i];' % (m, n), 'for i in %r: h = (h * 3 + G[%r][i]) & M' % (ix, b))
    # ---- functions ------------------------------------------------------------------------------------------------
    def stmt(self, u, C, P):
        r = self.r; k = r.random()
        if k < .45 and self.vars:
            n, kind, d, _ = r.choice(self.vars); self.use(u, n)
            if kind == 'u':
                C.append('h = h * 31u + %s;' % n); P.append('h = (h * 31 + G[%r][0]) & M' % n)
                if r.random() < .4: x = self.lit(); C.append('%s += %du;' % (n, x)); P.append('G[%r][0] = (G[%r][0] + %d) & M' % (n, n, x))
            elif kind == 'w': C.append('h = h * 29u + (unsigned)%s;' % n); P.append('h = (h * 29 + G[%r][0]) & M' % n)
            elif kind == 'a': i = r.randrange(d); C.append('h = h * 27u + %s[%d] + (unsigned)sizeof(%s);' % (n, i, n)); P.append('h = (h * 27 + G[%r][%d] + %d) & M' % (n, i, 4 * d))
            elif kind == 'z': i = r.choice([0, d - 1, r.randrange(d)]); C.append('%s[%d] += h; h ^= %s[%d];' % (n, i, n, d - 1)); P.append('G[%r][%d] = (G[%r][%d] + h) & M; h ^= G[%r][%d]' % (n, i, n, i, n, d - 1))
            elif kind == 'c': i = r.randrange(d); C.append('h = h * 25u + (unsigned)%s[%d];' % (n, i)); P.append('h = (h * 25 + G[%r][%d]) & M' % (n, i))
            elif kind == 's': m, t = r.choice(d); C.append('h = h * 23u + (unsigned)%s.%s;' % (n, m)); P.append('h = (h * 23 + G[%r][%r]) & M' % (n, m))
            elif kind == 'f': C.append('h = h * 21u + (unsigned)(%s * 2);' % n); P.append('h = (h * 21 + int(G[%r][0] * 2)) & M' % n)
            elif kind == 'p': C.append('h = h * 19u + *%s;' % n); P.append('h = (h * 19 + G[%r][0][G[%r][1]]) & M' % (n, n))
            elif kind == 'al': C.append('h = h * 47u + %s + (unsigned)((unsigned long long)&%s & %du);' % (n, n, d - 1)); P.append('h = (h * 47 + G[%r][0]) & M' % n)
            elif kind == 'cl': i = r.randrange(d); C.append('%s[%d] ^= h; h = h * 41u + %s[%d];' % (n, i, n, d - 1)); P.append('G[%r][%d] ^= h; h = (h * 41 + G[%r][%d]) & M' % (n, i, n, d - 1))
            elif kind == 'mix': C.append('h = h * 37u + %s.a + %s.b + *%s.p + (unsigned)%s.s[0] + %s.next->a;' % ((n,) * 5)); P.append('q = G[%r]; h = (h * 37 + q[0] + q[1] + q[2][0][q[2][1]] + q[3][0] + q[4][0]) & M' % n)
            elif kind == 'pp': i = r.randrange(d); C.append('h = h * 17u + *%s[%d];' % (n, i)); P.append('h = (h * 17 + G[%r][%d][0][G[%r][%d][1]]) & M' % (n, i, n, i))
        elif k < .65 and self.funcs:
            n, kind, d, _ = r.choice(self.funcs); cost = self.cost.get(n, 1)
            if cost > 60: return
            self.ccost += cost; x = self.lit(); self.use(u, n)
            if kind == 'f': C.append('h = h * 15u + %s(%s, %du);' % (n if r.random() < .7 else '(*&%s)' % n, 'h', x)); P.append('h = (h * 15 + %s(h, %d)) & M' % (n, x))
            else: C.append('{ struct %s t = %s(h); h = h * 13u + (unsigned)t.%s; }' % (d[0], n, d[1][0][0])); P.append('h = (h * 13 + %s(h)[%r]) & M' % (n, d[1][0][0]))
        elif k < .75 and self.loc[u]:
            n, kd = r.choice(self.loc[u])
            if kd == 'f': C.append('h = h * 11u + %s(h);' % n); P.append('h = (h * 11 + L[%d, %r](h)) & M' % (u, n))
            else: C.append('%s += 5u; h = h * 11u + %s;' % (n, n)); P.append('L[%d, %r][0] = (L[%d, %r][0] + 5) & M; h = (h * 11 + L[%d, %r][0]) & M' % ((u, n) * 3))
        elif k < .78 and self.hfn:
            n = r.choice(self.hfn); C.append('h ^= %s(h);' % n); P.append('L[%d, %r][0] = (L[%d, %r][0] + (h | 1)) & M; h ^= L[%d, %r][0]' % ((u, n) * 3))
        elif k < .80 and self.vars:
            n, kind, d, _ = r.choice(self.vars)
            if kind == 'u' and n in self.defs and 'thread' not in n and not any('thread' in x.lower() and (' %s;' % n) in x for x in self.hdr): self.use(u, n); C.append('{ extern unsigned %s; h = h * 45u + %s; }' % (n, n)); P.append('h = (h * 45 + G[%r][0]) & M' % n)
        elif k < .82 and self.vars:
            n, kind, d, _ = r.choice(self.vars)
            if not any('thread' in x.lower() and (' %s;' % n) in x for x in self.hdr):
                # the address of an entity is the same seen from any unit
                f = self.nm('ad'); w = r.randrange(self.nu); self.hdr.append('void *%s(void);' % f); self.decl[w].append('void *%s(void){ return (void *)&%s; }' % (f, n)); self.use(w, n); self.use(u, n); self.use(u, f); self.defs[f] = w
                C.append('h = h * 43u + (%s() == (void *)&%s);' % (f, n)); P.append('h = (h * 43 + 1) & M')
        elif k < .85:
            s = ''.join(r.choice('ABCDEFGHIJ') for _ in range(r.randint(1, 12))) if r.random() < .6 else r.choice(['a', 'b', 'ab', 'abc', 'xyz']); i = r.randrange(len(s)); C.append('h = h * 9u + (unsigned)%s"%s"[%d];' % (r.choice(['', '', '', 'L', 'u', 'U']), s, i)); P.append('h = (h * 9 + %d) & M' % ord(s[i]))
        elif k < .88:
            n = self.nm('n'); v = self.lit(); th = r.choice(['', '', '', '__declspec(thread) ']); self.tls = self.tls or th; C.append('{ static ' + th + 'unsigned %s = %du; %s += 3u; h ^= %s; }' % (n, v, n, n)); self.py.append('G[%r] = [%d]' % (n, v)); P.append('G[%r][0] = (G[%r][0] + 3) & M; h ^= G[%r][0]' % (n, n, n))
        elif k < .91:
            # a function inside of the function
            self.inner = self.__dict__.get('inner', set()) | {u}; n = self.nm('lf') if r.random() < .7 else 'local_fn'; v = self.lit(); w = self.lit(); g = [x for x in self.vars if x[1] == 'u']; q = ''; pq = ''; self.n += 1; key = 'lf%d' % self.n
            on = r.random() < .85
            if g and r.random() < .5: q = r.choice(g)[0]; self.use(u, q) if on else 0; pq = ' + G[%r][0]' % q; q = ' + ' + q
            th = r.choice(['', '', '', '__declspec(thread) ']); self.tls = self.tls or th; C.append('{ unsigned %s(unsigned x){ static %sunsigned count = %du; count += x | 1u; return (count ^ %du)%s; } %s}' % (n, th, v, w, q, 'h ^= %s(h); ' % n if on else ''))
            self.py.append('L[%r] = [%d]' % (key, v))
            if on: P.append('L[%r][0] = (L[%r][0] + (h | 1)) & M; h ^= ((L[%r][0] ^ %d)%s) & M' % (key, key, key, w, pq))
        elif k < .94:
            d = r.choice(['float', 'double']); v = r.randint(1, 64) * .125; C.append('h += (unsigned)((%s)(h & 1023u) * %r%s);' % (d, v, 'f' if d == 'float' else '')); P.append('h = (h + int((h & 1023) * %r)) & M' % v)
        else:
            cs = r.sample(range(12), r.randint(4, 10)); vs = [self.lit() for _ in cs]; dv = self.lit()
            C.append('switch(h %% 12u){ %s default: h ^= %du; }' % (' '.join('case %d: h += %du; break;' % x for x in zip(cs, vs)), dv)); P.append('q = %r.get(h %% 12); h = (h + q) & M if q is not None else h ^ %d' % (dict(zip(cs, vs)), dv))
    def function(self):
        r = self.r; u = r.randrange(self.nu); n = self.nm('f'); C, P = [], []; self.cost = self.__dict__.setdefault('cost', {}); self.ccost = 1
        st = r.random() < .2 and self.structs
        for _ in range(r.randint(1, 6)): self.stmt(u, C, P)
        if st:
            s, f = r.choice(self.structs); m, t = f[0]; msk = (1 << 8 * min(4, SC[t])) - 1
            self.hdr.append('struct %s %s(unsigned);' % (s, n)); self.decl[u].append('struct %s %s(unsigned h){\n    %s\n    struct %s t; t.%s = (%s)h; return t;\n}' % (s, n, '\n    '.join(C), s, m, t))
            self.py.append('def %s(h):\n    %s\n    return {%r: h & %d}' % (n, '\n    '.join(P) or 'pass', m, msk)); d = (s, f); k = 's'
        else:
            self.hdr.append('unsigned %s(unsigned, unsigned);' % n); self.decl[u].append('unsigned %s(unsigned h, unsigned a){\n    %s\n    return h ^ a;\n}' % (n, '\n    '.join(C)))
            self.py.append('def %s(h, a):\n    %s\n    return h ^ a' % (n, '\n    '.join(P) or 'pass')); d = None; k = 'f'
        self.cost[n] = self.ccost; self.funcs.append((n, k, d, u)); self.defs[n] = u
        if k == 'f' and r.random() < .3:
            t = self.nm('t'); w = r.randrange(self.nu); m = [r.choice([x[0] for x in self.funcs if x[1] == 'f']) for _ in range(r.randint(1, 3))]
            self.decl[w].append('unsigned (*%s[])(unsigned, unsigned) = {%s};' % (t, ', '.join(r.choice(['', '&']) + x for x in m))); [self.use(w, x) for x in m]; self.hdr.append('extern unsigned (*%s[%d])(unsigned, unsigned);' % (t, len(m))); self.defs[t] = w; self.tabs = self.__dict__.get('tabs', []) + [(t, m)]
    def main(self):
        r = self.r; u = r.randrange(self.nu); C, P = [], []; self.ccost = 0
        for n, k, d, w in self.funcs[-8:]:
            x = self.lit(); self.use(u, n)
            if k == 'f': C.append('h = h * 33u + %s(h, %du);' % (n, x)); P.append('h = (h * 33 + %s(h, %d)) & M' % (n, x))
            else: C.append('{ struct %s t = %s(h); h = h * 33u + (unsigned)t.%s; }' % (d[0], n, d[1][0][0])); P.append('h = (h * 33 + %s(h)[%r]) & M' % (n, d[1][0][0]))
        for t, m in self.__dict__.get('tabs', []):
            for i, x in enumerate(m):
                if self.cost[x] < 30: self.use(u, t); C.append('h = h * 35u + %s[%d](h, %du);' % (t, i, i)); P.append('h = (h * 35 + %s(h, %d)) & M' % (x, i))
        hs = self.__dict__.get('hugestm')
        if hs: self.use(u, hs[1]); C.append(hs[2][0]); P.append(hs[2][1])
        for _ in range(2 * len(self.vars) if len(self.vars) < 20 else 30): self.stmt(u, C, P)
        self.decl[u].append('int _start(void){\n    unsigned h = 17u;\n    %s\n    return (int)h;\n}' % '\n    '.join(C)); self.py.append('def _start():\n    h = 17\n    %s\n    return h' % '\n    '.join(P)); self.defs['_start'] = u; self.entry = u
    def texts(self):
        h = '#pragma once\n' + '\n'.join(self.hdr) + '\n'
        t = {'u%d.c' % u: '#include "all.h"\n' + '\n'.join(self.decl[u]) + '\n' for u in range(self.nu)}; t['all.h'] = h
        return t
    def forward(self, u):
        """what an independent compiler needs in front of a unit whose declarations are shuffled"""
        return ''.join('static unsigned %s%s;\n' % (n, '(unsigned)' if k == 'f' else '') for n, k in self.loc[u])
    def groups(self):
        out = [['u%d.c' % u for u in range(self.nu) if self.part[u] == p] for p in range(self.np)]
        return [g for g in out if g]
    def expected(self):
        env = {'M': M, 'G': {}, 'L': {}}
        exec('\n'.join(self.py), env)
        return env['_start']()
