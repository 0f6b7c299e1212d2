"""Generators of multi-unit programs. Every program carries the exit code a separate Python model of it computes.

The C text and the Python model are produced side by side, statement by statement; the model never sees the compiler.
All arithmetic is on 32-bit unsigned integers unless a statement says otherwise.
"""
import random, re

M = 0xffffffff
U8, U16, U32, U64, PTR = 'unsigned char', 'unsigned short', 'unsigned', 'unsigned long long', 'ptr'
SCALAR = {U8: 1, U16: 2, U32: 4, U64: 8}


class Struct:
    def __init__(self, name, union=False):
        self.name, self.union, self.fields = name, union, []   # field: (name, kind, detail, count)
        self.size = self.align = 0

    def layout(self, packed=False):
        off = 0; al = 1; self.off = {}; size = 0
        for (n, kind, det, cnt) in self.fields:
            if kind == 'scalar': s = a = SCALAR[det]
            elif kind == 'ptr': s = a = 8
            else: s, a = det.size, det.align
            off = 0 if self.union else (off + a - 1) // a * a
            self.off[n] = off
            tot = s * (cnt or 1)
            off += tot; size = max(size, off); al = max(al, a)
        self.align = al
        self.size = (size + al - 1) // al * al

    def scalars(self):
        """access paths of the u32 members, with the expression each has in C"""
        out = []
        for (n, kind, det, cnt) in self.fields:
            if kind == 'scalar':
                for i in ([None] if not cnt else range(cnt)):
                    out.append((n if i is None else '%s[%d]' % (n, i), det))
            elif kind == 'struct' and not cnt and not det.union:
                out += [(n + '.' + p if n else p, t) for p, t in det.scalars()]
        return out


class Gen:
    def __init__(self, seed, units=3, size=14, opts=()):
        self.r = random.Random(seed)
        self.nu = units
        self.size = size
        self.o = set(opts)
        self.decls = [[] for _ in range(units)]     # per unit: list of C texts (global entries)
        self.py = []                                # model source
        self.structs, self.enums, self.typedefs, self.globs, self.funcs = [], [], [], [], []
        self.ptypedefs = []
        self.uid = 0
        self.where = {}                             # entity -> unit that holds its definition
        self.macros = [[] for _ in range(units)]
        self.chararr = set()
        self.hdr = []; self.hdr_funcs = []
        self.marks = []                             # identifiers of injected errors
        self.extra_files = {}

    def has(self, x):
        return x not in self.o

    def name(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def unit(self):
        return self.r.randrange(self.nu)

    def put(self, text, unit=None, ent=None):
        u = self.unit() if unit is None else unit
        self.decls[u].append(text); self.lastu = u
        if ent: self.where[ent] = u
        return u

    # ---- types -------------------------------------------------------------------------------------------------
    def const_expr(self, v):
        """a C constant expression with value v, possibly through sizeof, an enumerator, a macro"""
        r = self.r
        k = r.randrange(7)
        if k == 0 and self.structs:
            s = r.choice(self.structs)
            if s.size <= v: return '(int)sizeof(struct %s) + %d' % (s.name, v - s.size) if not s.union else '(int)sizeof(union %s) + %d' % (s.name, v - s.size)
        if k == 1 and self.enums:
            n, x = r.choice(self.enums)
            return '%s + %d' % (n, v - x) if v >= x else '%s - %d' % (n, x - v)
        if k == 2 and self.ptypedefs:
            n, s = r.choice(self.ptypedefs)
            if s <= v: return '(int)sizeof(%s) + %d' % (n, v - s)
        if k == 3 and v % 2 == 0: return '(%d << 1)' % (v // 2)
        if k == 4: return '(1 ? %d : 7)' % v
        return str(v)

    def gen_struct(self):
        r = self.r
        s = Struct(self.name('s'), union=r.random() < .12)
        txt = []
        for i in range(r.randint(1, 5)):
            n = 'm%d' % i
            k = r.random()
            if k < .55 or s.union:
                t = r.choice([U32, U32, U32, U8, U16, U64]); cnt = r.choice([0, 0, 0, r.randint(1, 4)])
                s.fields.append((n, 'scalar', t, cnt)); txt.append('%s %s%s;' % (t, n, '[%s]' % self.const_expr(cnt) if cnt else ''))
            elif k < .8 and self.structs:
                d = r.choice(self.structs)
                s.fields.append((n, 'struct', d, 0)); txt.append('%s %s %s;' % ('union' if d.union else 'struct', d.name, n))
            elif k < .9:
                d = r.choice(self.structs) if self.structs else s
                s.fields.append((n, 'ptr', None, 0)); txt.append('%s %s *%s;' % ('union' if d.union else 'struct', d.name, n))
            else:
                a = Struct(''); a.fields = [('q%d' % i, 'scalar', U32, 0), ('w%d' % i, 'scalar', U8, 0)]; a.layout()
                s.fields.append(('', 'struct', a, 0)); txt.append('struct { unsigned q%d; unsigned char w%d; };' % (i, i))
        # a later field with an empty name (anonymous) keeps its own key in the layout
        s.layout()
        kw = 'union' if s.union else 'struct'
        u = self.put('%s %s {\n    %s\n};' % (kw, s.name, '\n    '.join(txt)), ent=s.name)
        self.structs.append(s)
        if r.random() < .35:
            self.put('_Static_assert(sizeof(%s %s) == %s, "%s");' % (kw, s.name, self.const_expr(s.size), s.name))
        if r.random() < .3:
            t = self.name('t'); self.typedefs.append((t, s))
            self.ptypedefs.append((t, s.size))
            self.put('typedef %s %s %s;' % (kw, s.name, t), ent=t)
            if r.random() < .3:
                t2 = self.name('t'); self.typedefs.append((t2, s)); self.put('typedef %s %s;' % (t, t2), ent=t2)

    def gen_enum(self):
        r = self.r
        n = self.name('e'); items = []; v = 0; txt = []
        for i in range(r.randint(1, 5)):
            nm = '%s_%d' % (n, i)
            if r.random() < .5: v = r.randint(0, 300); txt.append('%s = %s,' % (nm, self.const_expr(v)))
            else: txt.append(nm + ',')
            items.append((nm, v)); v += 1
        self.put('enum %s {\n    %s\n};' % (n, '\n    '.join(txt)), ent=n)
        self.enums += items

    def gen_typedef(self):
        n = self.name('u')
        base = self.r.choice([x for x, _ in self.scalar_td] + ['unsigned'])
        self.scalar_td.append((n, 4)); self.ptypedefs.append((n, 4))
        self.put('typedef %s %s;' % (base, n), ent=n)

    def u32(self):
        return self.r.choice([x for x, _ in self.scalar_td]) if self.scalar_td and self.r.random() < .3 else 'unsigned'

    def sname(self, s):
        td = [t for t, x in self.typedefs if x is s]
        if td and self.r.random() < .5: return self.r.choice(td)
        return ('union ' if s.union else 'struct ') + s.name

    # ---- globals -----------------------------------------------------------------------------------------------
    def gen_global(self):
        r = self.r
        k = r.random(); n = self.name('g')
        if k < .25:      # scalar
            v = r.randint(0, M)
            tent = r.random() < .25
            if tent: v = 0
            u = self.put('%s %s%s;' % (self.u32(), n, '' if tent else ' = %du' % v), ent=n)
            if tent:
                for _ in range(r.randint(0, 2)): self.put('%sunsigned %s;' % (r.choice(['', 'extern ']), n))
            elif r.random() < .4: self.put('extern unsigned %s;' % n)
            self.py.append('G[%r] = [%d]' % (n, v)); self.globs.append((n, 'u', None))
        elif k < .55:    # array
            vals = [r.randint(0, M) for _ in range(r.randint(1, 6))]
            unk = r.random() < .6
            self.put('%s %s[%s] = {%s};' % (self.u32(), n, '' if unk else self.const_expr(len(vals)), ', '.join('%du' % v for v in vals)), ent=n)
            for _ in range(r.choice([0, 0, 1, 1, 2])): self.put('extern unsigned %s[%s];' % (n, '' if r.random() < .5 else self.const_expr(len(vals))))
            if r.random() < .3: self.put('_Static_assert(sizeof(%s) == %s, "%s");' % (n, self.const_expr(len(vals) * 4), n))
            self.py.append('G[%r] = %r' % (n, vals)); self.globs.append((n, 'a', len(vals)))
        elif k < .72 and self.structs:   # struct
            s = r.choice([x for x in self.structs if not x.union] or [None])
            if s is None: return
            sc = s.scalars()
            d = {p: 0 for p, _ in sc}; init = []
            for p, t in sc:
                if r.random() < .6:
                    v = r.randint(0, (1 << (8 * SCALAR[t])) - 1); d[p] = v; init.append('.%s = %d%s' % (p, v, 'ull' if t == U64 else 'u'))
            self.put('%s %s%s;' % (self.sname(s), n, (' = {%s}' % ', '.join(init)) if init else ''), ent=n)
            if r.random() < .3: self.put('extern struct %s %s;' % (s.name, n))
            self.py.append('G[%r] = %r' % (n, d)); self.globs.append((n, 's', s))
        elif k < .86:    # pointer into an array
            arrs = [g for g in self.globs if g[1] == 'a']
            if not arrs: return
            g = r.choice(arrs); i = r.randrange(g[2])
            self.put('%s *%s = %s;' % (self.u32(), n, '&%s[%d]' % (g[0], i) if i or r.random() < .5 else g[0]), ent=n)
            self.py.append('G[%r] = (G[%r], %d)' % (n, g[0], i)); self.globs.append((n, 'p', g[2] - i))
        else:            # string
            s = ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(r.randint(1, 9)))
            if r.random() < .5:
                self.put('char *%s = "%s";' % (n, s), ent=n)
            else:
                self.put('char %s[] = "%s";' % (n, s), ent=n); self.chararr.add(n)
                if r.random() < .5: self.put('extern char %s[%s];' % (n, r.choice(['', len(s) + 1])))
                if r.random() < .4: self.put('_Static_assert(sizeof(%s) == %d, "%s");' % (n, len(s) + 1, n))
            self.py.append('G[%r] = %r' % (n, [ord(c) for c in s])); self.globs.append((n, 'c', len(s)))

    def gen_sized(self):
        """an array whose bound is the size of an array that is completed by its own initialiser"""
        r = self.r
        c = [g for g in self.globs if g[1] == 'a'] + [g for g in self.globs if g[1] == 'c' and g[0] in self.chararr]
        if not c: return
        g = r.choice(c); n = self.name('g'); sz = g[2] * 4 if g[1] == 'a' else g[2] + 1
        self.put('unsigned %s[sizeof(%s)];' % (n, g[0]), ent=n)
        if r.random() < .5: self.put('extern unsigned %s[%s];' % (n, r.choice(['', sz])))
        self.py.append('G[%r] = [0] * %d' % (n, sz)); self.globs.append((n, 'a', sz))

    # ---- constructs that need several cooperating declarations -----------------------------------------------------
    def gen_extra(self):
        r = self.r; n = self.name('x'); k = r.choice(['arr2', 'tbl', 'nodes', 'ptrs', 'u64', 'fp', 'bits', 'any', 'tls', 'lit', 'strs', 'desg', 'nested', 'fwd', 'tent', 'fnparam', 'cls', 'inl', 'lfn', 'arrd', 'stls', 'stls' if r.random() < .9 else 'bigs'])
        c, p = self.xc, self.xp
        if k == 'arr2':
            a, b = r.randint(1, 4), r.randint(1, 4); v = [[r.randint(0, M) for _ in range(b)] for _ in range(a)]
            self.put('unsigned %s[%s][%s] = {%s};' % (n, r.choice(['', self.const_expr(a)]), self.const_expr(b), ', '.join('{%s}' % ', '.join('%du' % y for y in x) for x in v)))
            if r.random() < .5: self.put('extern unsigned %s[%s][%d];' % (n, r.choice(['', a]), b))
            c.append('for(unsigned i = 0; i < sizeof(%s)/sizeof(%s[0]); i++) for(unsigned j = 0; j < %d; j++) h = h * 7 + %s[i][j];' % (n, n, b, n)); p.append('for x in %r:\n        for y in x: h = (h * 7 + y) & M' % v)
        elif k == 'tbl':
            f = [x for x in self.funcs if x['kind'] == 'u']
            if not f: return
            m = [r.choice(f)['name'] for _ in range(r.randint(1, 5))]
            if r.random() < .5: self.put('unsigned (*%s[])(unsigned, unsigned) = {%s};' % (n, ', '.join(r.choice(['', '&']) + x for x in m)))
            else:
                t = self.name('ft'); self.put('typedef unsigned (*%s)(unsigned, unsigned);' % t); self.put('%s %s[%d] = {%s};' % (t, n, len(m), ', '.join(m)))
            if r.random() < .5: self.put('extern unsigned (*%s[%s])(unsigned, unsigned);' % (n, r.choice(['', len(m)])))
            c.append('for(unsigned i = 0; i < sizeof(%s)/8; i++) h = h * 11 + %s[i](i, h & 255u);' % (n, n)); p.append('for i, fn in enumerate([%s]): h = (h * 11 + fn(i, h & 255)) & M' % ', '.join(m))
        elif k == 'nodes':
            m = r.randint(1, 5); vs = [r.randint(0, M) for _ in range(m)]
            self.put('struct %s { struct %s *next; unsigned v; };' % (n, n))
            for i in range(m): self.put('struct %s %s_%d = {%s&%s_%d, %du};' % (n, n, i, r.choice(['', '.next = ']), n, (i + 1) % m, vs[i]))
            if r.random() < .4: self.put('extern struct %s %s_%d;' % (n, n, r.randrange(m)))
            c.append('{ struct %s *q = &%s_0; for(unsigned i = 0; i < %d; i++){ h = h * 13 + q->v; q = q->next; } }' % (n, n, m + 2)); p.append('for i in range(%d): h = (h * 13 + %r[i %% %d]) & M' % (m + 2, vs, m))
        elif k == 'ptrs':
            a = [g for g in self.globs if g[1] == 'a']
            if not a: return
            m = [(lambda g: (g[0], r.randrange(g[2])))(r.choice(a)) for _ in range(r.randint(1, 4))]
            self.put('%s *%s[%s] = {%s};' % (self.u32(), n, r.choice(['', len(m)]), ', '.join('%s + %d' % x if r.random() < .5 else '&%s[%d]' % x for x in m)))
            if r.random() < .4: self.put('extern unsigned *%s[%s];' % (n, r.choice(['', len(m)])))
            c.append('for(unsigned i = 0; i < sizeof(%s)/8; i++) h = h * 17 + *%s[i];' % (n, n)); p.append('for g, i in %r: h = (h * 17 + G[g][i]) & M' % m)
        elif k == 'u64':
            v, w = r.getrandbits(64), r.getrandbits(64) | 1; self.put('unsigned long long %s = %dull;' % (n, v)); 
            if r.random() < .5: self.put('extern unsigned long long %s;' % n)
            op = r.choice(['+', '*', '^', '%', '/', '-', '>>'])
            if op == '>>': w = r.randint(1, 63)
            self.put('unsigned long long %s_f(unsigned long long a){ return a %s %dull; }' % (n, op, w)); 
            c.append('h = h * 19 + (unsigned)(%s_f(%s) >> 7);' % (n, n)); p.append('h = (h * 19 + (((%d %s %d) & 0xffffffffffffffff) >> 7)) & M' % (v, '//' if op == '/' else op, w))
        elif k == 'fp':
            t = r.choice(['double', 'float']); v = r.randint(0, 500) + r.choice([0., .5, .25]); w = r.randint(1, 9) * .5
            self.put('%s %s = %r%s;' % (t, n, v, 'f' if t == 'float' else '')); self.put('%s %s_f(%s a, %s b){ return a * %s + b; }' % (t, n, t, t, n))
            if r.random() < .5: self.put('%s %s_f(%s, %s);' % (t, n, t, t))
            c.append('h = h * 23 + (unsigned)%s_f(%r%s, 2);' % (n, w, 'f' if t == 'float' else '')); p.append('h = (h * 23 + int(%r * %r + 2)) & M' % (w, v))
        elif k == 'bits':
            w = [r.randint(1, 12) for _ in range(r.randint(1, 5))]; v = [r.randrange(1 << x) for x in w]
            self.put('struct %s { %s };' % (n, ' '.join('unsigned b%d : %s;' % (i, self.const_expr(x)) for i, x in enumerate(w)))); self.put('struct %s %s_v = {%s};' % (n, n, ', '.join(map(str, v))))
            c.append(' '.join('h = h * 29 + %s_v.b%d;' % (n, i) for i in range(len(w)))); p.append('for x in %r: h = (h * 29 + x) & M' % v)
        elif k == 'any':
            v = r.randint(0, M); self.hdr_funcs.append('__declspec(selectany) unsigned %s = %du;' % (n, v)); c.append('h = h * 31 + %s;' % n); p.append('h = (h * 31 + %d) & M' % v)
        elif k == 'tls':
            v = r.randint(0, M); q = r.choice(['__declspec(thread)', '_Thread_local']); self.put('%s unsigned %s%s;' % (q, n, ' = %du' % v if r.random() < .7 else ''))
            v = v if ' = ' in self.decls[self.lastu][-1] else 0
            if r.random() < .5: self.put('extern %s unsigned %s;' % (q, n))
            self.put('unsigned %s_f(unsigned a){ %s += a; return %s; }' % (n, n, n)); a = r.randint(0, 999)
            c.append('h = h * 37 + %s_f(%d) + %s;' % (n, a, n)); p.append('h = (h * 37 + 2 * (%d + %d)) & M' % (v, a))
        elif k == 'stls':     # thread-local statics of functions, and of functions inside of functions
            v, w, a = r.randint(0, M), r.randint(0, M), r.randint(0, 999); q = r.choice(['static __declspec(thread)', 'static _Thread_local'])
            iv, iw = [(' = %du' % y, y) if r.random() < .7 else ('', 0) for y in (v, w)]
            if r.random() < .5:
                self.put('unsigned %s(unsigned a){ unsigned inner(unsigned b){ %s unsigned count%s; count += b; return count; } %s unsigned count%s; count += inner(a); return count ^ inner(1); }' % (n, q, iw[0], q, iv[0]), 0)
                f = lambda i, c: ('i = (i + %d) & M; j = (j + i) & M; i = (i + 1) & M; h = (h * 43 + (j ^ i)) & M' % a)
            else:
                self.put('unsigned %s(unsigned a){ %s unsigned count%s, *unused%s; count += a; return count ^ (unused != 0); }' % (n, q, iv[0], r.choice(['', ' = 0'])), 0)
                f = lambda i, c: ('j = (j + %d) & M; h = (h * 43 + j) & M' % a)
            c.append('h = h * 43 + %s(%d); h = h * 43 + %s(%d);' % (n, a, n, a)); p += ['i, j = %d, %d' % (iw[1], iv[1]), f(0, 0), f(0, 0)]
        elif k == 'bigs':     # an initialiser of more than 64K inside of a function
            m, v = r.randint(2500, 4000), r.randint(0, 99)
            self.put('unsigned %s(unsigned a){ static unsigned table[] = {%s}; unsigned sum = 0; for(unsigned i = 0; i < sizeof(table)/sizeof(*table); i++) sum = sum * 3 + table[i] + a; return sum; }' % (n, ', '.join('%du' % (v + i) for i in range(m))), 0)
            c.append('h = h * 43 + %s(h);' % n); p += ['q = 0', 'for i in range(%d): q = (q * 3 + %d + i + h) & M' % (m, v), 'h = (h * 43 + q) & M']
        elif k == 'lit':
            v = [r.randint(0, M) for _ in range(r.randint(1, 4))]; self.put('unsigned *%s = (unsigned[]){%s};' % (n, ', '.join('%du' % x for x in v)))
            c.append('for(unsigned i = 0; i < %d; i++) h = h * 41 + %s[i];' % (len(v), n)); p.append('for x in %r: h = (h * 41 + x) & M' % v)
        elif k == 'strs':
            v = [''.join(r.choice('abcdefgh') for _ in range(r.randint(1, 6))) for _ in range(r.randint(1, 4))]; self.put('char *%s[%s] = {%s};' % (n, r.choice(['', len(v)]), ', '.join('"%s"' % x for x in v)))
            if r.random() < .4: self.put('extern char *%s[];' % n)
            c.append('for(unsigned i = 0; i < sizeof(%s)/sizeof(*%s); i++) for(char *q = %s[i]; *q; q++) h = h * 43 + (unsigned)*q;' % (n, n, n)); p.append('for x in %r:\n        for y in x: h = (h * 43 + ord(y)) & M' % v)
        elif k == 'desg':
            e = r.choice(self.enums) if self.enums else None
            if not e or e[1] > 40: return
            v = r.randint(1, M); self.put('unsigned %s[%s] = {[%s] = %du};' % (n, r.choice(['', e[0] + ' + 1', e[1] + 1]), e[0], v))
            c.append('h = h * 47 + %s[%d] + (unsigned)sizeof(%s);' % (n, e[1], n)); p.append('h = (h * 47 + %d + %d) & M' % (v, 4 * (e[1] + 1)))
        elif k == 'nested':
            v = [r.randint(0, 255) for _ in range(4)]
            self.put('struct %s_in { unsigned char a, b; };' % n); self.put('struct %s { struct %s_in in[2]; unsigned (*f)(unsigned, unsigned); };' % (n, n)); f = [x for x in self.funcs if x['kind'] == 'u']
            if not f: return
            f = r.choice(f)['name']; self.put('struct %s %s_v = {.f = %s, .in = {[1] = {%d, %d}, [0] = {%d, %d}}};' % (n, n, f, v[2], v[3], v[0], v[1]))
            c.append('for(unsigned i = 0; i < 2; i++) h = h * 53 + %s_v.in[i].a * 3u + %s_v.in[i].b; h = h * 5 + %s_v.f(3, 4);' % (n, n, n)); p.append('for a, b in %r: h = (h * 53 + a * 3 + b) & M' % [(v[0], v[1]), (v[2], v[3])]); p.append('h = (h * 5 + %s(3, 4)) & M' % f)
        elif k == 'fwd':      # an incomplete type in one place, complete in another
            v = r.randint(0, M); self.put('struct %s;' % n); self.put('extern struct %s %s_v;' % (n, n)); self.put('unsigned %s_f(struct %s *p);' % (n, n)); self.put('struct %s { unsigned char pad[%d]; unsigned v; };' % (n, r.randint(1, 9)))
            for x in r.sample(['typedef struct @ @_t;', 'typedef struct @ *@_p;', 'extern struct @ *@_q;', 'extern @_a *@_q;\ntypedef struct @ @_a;', 'typedef struct @ @_t; typedef @_t @_t;', 'struct @_w { struct @ *p; struct @_w *n; };', 'unsigned (*@_fp)(struct @ *a);', 'extern struct @ @_va[];', 'extern struct @ @_va[4];'], r.choice([0, 0, 1, 3])):
                for y in x.split('\n'): self.put(y.replace('@', n))
            self.put('struct %s %s_v = {.v = %du};' % (n, n, v)); self.put('unsigned %s_f(struct %s *p){ return p->v; }' % (n, n)); c.append('h = h * 59 + %s_f(&%s_v);' % (n, n)); p.append('h = (h * 59 + %d) & M' % v)
        elif k == 'arrd':     # declarations of an array with and without the size
            v = [r.randint(0, M) for _ in range(r.randint(1, 4))]; self.put('unsigned %s[%s] = {%s};' % (n, r.choice(['', '', len(v)]), ', '.join('%du' % x for x in v)))
            for _ in range(r.randint(1, 3)): self.put('extern unsigned %s[%s];' % (n, r.choice(['', len(v), '%d + 0' % len(v)])))
            if r.random() < .4: self.put('unsigned %s_f(void){ extern unsigned %s[]; return %s[0]; }' % (n, n, n)); c.append('h = h * 7 + %s_f();' % n); p.append('h = (h * 7 + %d) & M' % v[0])
            c.append('h = h * 89 + %s[%d];' % (n, len(v) - 1)); p.append('h = (h * 89 + %d) & M' % v[-1])
        elif k == 'tent':
            v = r.choice([0, r.randint(1, M)]); m = r.randint(1, 3)
            for _ in range(m): self.put('unsigned %s;' % n)
            if v: self.put('unsigned %s = %du;' % (n, v))
            self.put('unsigned *%s_p = &%s;' % (n, n)); c.append('h = h * 61 + *%s_p; %s += 5; h = h * 3 + *%s_p;' % (n, n, n)); p += ['h = (h * 61 + %d) & M' % v, 'h = (h * 3 + %d + 5) & M' % v]
        elif k == 'fnparam':
            f = [x for x in self.funcs if x['kind'] == 'u']
            if not f: return
            f = r.choice(f)['name']; t = self.name('ft'); self.put('typedef unsigned %s(unsigned, unsigned);' % t); self.put('unsigned %s(%s *fn, unsigned a, unsigned b, unsigned c, unsigned d, unsigned e){ return fn(a, b) + c * d - e; }' % (n, t))
            v = [r.randint(0, 999) for _ in range(5)]; c.append('h = h * 67 + %s(%s, %s);' % (n, f, ', '.join(map(str, v)))); p.append('h = (h * 67 + %s(%d, %d) + %d) & M' % (f, v[0], v[1], v[2] * v[3] - v[4]))
        elif k == 'cls':      # same private names in all units, data this time
            g = 'data_%d' % r.randrange(2)
            if any(g in x for d in self.decls for x in d): return
            for u in range(self.nu):
                v = [r.randint(0, M) for _ in range(r.randint(1, 3))]; self.put('static unsigned %s[] = {%s};' % (g, ', '.join('%du' % x for x in v)), u); self.put('unsigned *%s_%s_%d = %s;' % (n, g, u, g), u); self.put('unsigned %s_%s_s%d(void){ return (unsigned)sizeof(%s) + %s[%d]; }' % (n, g, u, g, g, len(v) - 1), u)
                c.append('h = h * 71 + %s_%s_%d[0] + %s_%s_s%d();' % (n, g, u, n, g, u)); p.append('h = (h * 71 + %d + %d + %d) & M' % (v[0], 4 * len(v), v[-1]))
        elif k == 'lfn':      # functions inside of functions, of equal names
            v, w = r.randint(0, M), r.randint(0, M); e, pe = self.expr([], 0, 1) if r.random() < .5 else ('7u', '7')
            fp = r.choice(['inner', 'inner', '(*ptr)', 'ptr'])
            if 'G[' in pe: e, pe = '9u', '9'
            deep = r.choice(['', 'unsigned deep(unsigned d){ return d * 5u + %s; } ' % e])
            self.put('unsigned %s(unsigned a){ unsigned inner(unsigned b){ static unsigned count = %du; count += 3; %sreturn %s ^ count; } %sunsigned f = inner(a); return f * 3u + %s(f ^ %du); }' % (
                n, v, deep, 'deep(b)' if deep else '(b + %s)' % e, 'unsigned (*ptr)(unsigned) = %sinner; ' % r.choice(['', '&']) if 'ptr' in fp else '', fp, w), 0)
            q = '(lambda b: b * 5 + %s)' % pe if deep else '(lambda b: b + %s)' % pe
            p += ['f = (%s(h) & M) ^ %d' % (q, (v + 3) & M), 'h = (h * 83 + f * 3 + ((%s((f ^ %d)) & M) ^ %d)) & M' % (q, w, (v + 6) & M)]; c.append('h = h * 83 + %s(h);' % n)
        elif k == 'inl':
            v = r.randint(0, M); self.put('%sunsigned %s(unsigned a){ return a ^ %du; }' % (r.choice(['static inline ', '__declspec(noinline) ', 'extern inline ']), n, v), 0) ; self.put('unsigned %s_c(unsigned a){ return %s(a) + 1; }' % (n, n), 0)
            c.append('h = h * 73 + %s_c(h);' % n); p.append('h = (h * 73 + ((h ^ %d) + 1)) & M' % v)

    # ---- expressions and statements ----------------------------------------------------------------------------
    def expr(self, vs, unit, d=2):
        """(C text, Python text) of a u32 expression without side effects"""
        r = self.r
        k = r.random()
        if d == 0 or k < .2:
            if vs and r.random() < .75:
                v = r.choice(vs); return v, v
            c = r.randint(0, 9999); return '%du' % c, '%d' % c
        if k < .5:
            a, pa = self.expr(vs, unit, d - 1); b, pb = self.expr(vs, unit, d - 1)
            op = r.choice(['+', '-', '*', '^', '&', '|'])
            return '(%s %s %s)' % (a, op, b), '((%s %s %s) & M)' % (pa, op, pb)
        if k < .58:
            a, pa = self.expr(vs, unit, d - 1); c = r.randint(1, 31); op = r.choice(['<<', '>>'])
            return '(%s %s %d)' % (a, op, c), '((%s %s %d) & M)' % (pa, op, c)
        if k < .63:
            a, pa = self.expr(vs, unit, d - 1); c = r.randint(1, 200); op = r.choice(['/', '%'])
            return '(%s %s %du)' % (a, op, c), '(%s %s %d)' % (pa, '//' if op == '/' else '%', c)
        if k < .68:
            a, pa = self.expr(vs, unit, d - 1); b, pb = self.expr(vs, unit, d - 1); c, pc = self.expr(vs, unit, d - 1)
            op = r.choice(['<', '>', '==', '>=', '!='])
            return '((%s %s %s) ? %s : 3u)' % (a, op, b, c), '(%s if %s %s %s else 3)' % (pc, pa, op, pb)
        if k < .80 and self.globs:
            g, kind, det = r.choice(self.globs)
            if kind == 'u': return g, 'G[%r][0]' % g
            if kind == 'a':
                if r.random() < .25: return '(unsigned)sizeof(%s)' % g, '%d' % (det * 4)
                a, pa = self.expr(vs, unit, d - 1); return '%s[%s %% %du]' % (g, a, det), 'G[%r][%s %% %d]' % (g, pa, det)
            if kind == 'p':
                i = r.randrange(det); return '%s[%d]' % (g, i), 'G[%r][0][G[%r][1] + %d]' % (g, g, i)
            if kind == 'c':
                i = r.randrange(det); return '(unsigned)%s[%d]' % (g, i), 'G[%r][%d]' % (g, i)
            if kind == 's':
                sc = det.scalars()
                if sc:
                    p, t = r.choice(sc); return '(unsigned)%s.%s' % (g, p), '(G[%r][%r] & M)' % (g, p)
        if k < .84 and self.structs:
            s = r.choice(self.structs); return '(unsigned)sizeof(%s)' % self.sname(s), '%d' % s.size
        if k < .87 and self.structs:
            s = r.choice([x for x in self.structs]); f = [x for x in s.fields if x[0]]
            if f:
                n = r.choice(f)[0]
                kw = 'union' if s.union else 'struct'
                return '(unsigned)(unsigned long long)&((%s %s *)0)->%s' % (kw, s.name, n), '%d' % s.off[n]
        if k < .93 and self.enums:
            n, v = r.choice(self.enums); return '(unsigned)%s' % n, '%d' % v
        if k < .96:
            s = ''.join(r.choice('pqrstuvw') for _ in range(3)); a, pa = self.expr(vs, unit, d - 1)
            return '(unsigned)"%s"[%s %% 3u]' % (s, a), '%r[%s %% 3]' % ([ord(c) for c in s], pa)
        if k < .98 and self.macros[unit]:
            n, v = r.choice(self.macros[unit]); return n, '%d' % v
        a, pa = self.expr(vs, unit, d - 1); c = r.choice([.5, .25, 1.5, 2.0]); e = r.randint(0, 9) + .125
        return '(unsigned)((double)(%s %% 4096u) * %r + %r)' % (a, c, e), 'int((%s %% 4096) * %r + %r)' % (pa, c, e)

    def body(self, fn, unit, vs, callees, statics):
        r = self.r
        C, P = [], []
        vs = list(vs)
        nv = [0]

        def newv():
            nv[0] += 1; return 'v%d' % nv[0]
        for c in callees:
            v = newv()
            (e1, p1), (e2, p2) = self.expr(vs, unit), self.expr(vs, unit)
            if c['kind'] == 'u':
                if c.get('ptr') and r.random() < .5: C.append('unsigned %s = %s(%s, %s);' % (v, c['ptr'], e1, e2))
                else: C.append('unsigned %s = %s(%s, %s);' % (v, c['name'], e1, e2))
                P.append('%s = %s(%s, %s)' % (v, c['name'], p1, p2)); vs.append(v)
            else:
                s = c['s']; sc = s.scalars()
                C.append('%s %s = %s(%s);' % (self.sname(s), v, c['name'], e1)); P.append('%s = %s(%s)' % (v, c['name'], p1))
                if sc:
                    p, t = r.choice(sc); w = newv()
                    C.append('unsigned %s = (unsigned)%s.%s;' % (w, v, p)); P.append('%s = %s[%r] & M' % (w, v, p)); vs.append(w)
        for _ in range(r.randint(1, 4)):
            k = r.random(); v = newv()
            e, p = self.expr(vs, unit)
            if k < .35:
                C.append('%s %s = %s;' % (self.u32(), v, e)); P.append('%s = %s' % (v, p)); vs.append(v)
            elif k < .5:
                gs = [g for g in self.globs if g[1] in 'ua']
                if gs:
                    g, kind, det = r.choice(gs)
                    i = r.randrange(det) if kind == 'a' else 0
                    C.append('%s %s %s;' % (g if kind == 'u' else '%s[%d]' % (g, i), '+=', e)); P.append('G[%r][%d] = (G[%r][%d] + %s) & M' % (g, i, g, i, p))
            elif k < .62 and self.structs:
                ss = [x for x in self.structs if not x.union and x.scalars()]
                if ss:
                    s = r.choice(ss); pt, t = r.choice(s.scalars()); w = newv()
                    C.append('%s %s = {0}; %s.%s = %s; unsigned %s = (unsigned)%s.%s;' % (self.sname(s), v, v, pt, e if t != U64 else '(unsigned long long)' + e, w, v, pt))
                    P.append('%s = %s & %d' % (w, p, min(M, (1 << (8 * SCALAR[t])) - 1))); vs.append(w)
            elif k < .72:
                n = r.randint(2, 4); e2, p2 = self.expr(vs + [v], unit)
                C.append('unsigned %s = %s; for(unsigned i = 0; i < %d; i++){ %s = %s + i; }' % (v, e, n, v, e2))
                P.append('%s = %s' % (v, p)); P.append('for i in range(%d): %s = (%s + i) & M' % (n, v, p2)); vs.append(v)
            elif k < .8:
                e2, p2 = self.expr(vs, unit); e3, p3 = self.expr(vs, unit)
                C.append('unsigned %s = 1; switch(%s %% 4u){ case 0: %s = %s; break; case 1: %s = 7u; case 2: %s ^= %s; break; default: break; }' % (v, e, v, e2, v, v, e3))
                P.append('%s = 1' % v); P.append('_t = (%s) %% 4' % p)
                P.append('%s = (%s) if _t == 0 else (7 ^ (%s)) if _t == 1 else (1 ^ (%s)) if _t == 2 else 1' % (v, p2, p3, p3)); vs.append(v)
            elif k < .88:
                c = r.randint(0, 99); nm = 'cnt%d' % nv[0]; key = fn + nm
                C.append('static unsigned %s = %d; %s += 3; unsigned %s = %s ^ %s;' % (nm, c, nm, v, nm, e))
                P.append('G.setdefault(%r, [%d])[0] += 3' % (key, c)); P.append('%s = (G[%r][0] ^ %s) & M' % (v, key, p)); vs.append(v)
            elif k < .93 and [g for g in self.globs if g[1] == 'a']:
                g = r.choice([g for g in self.globs if g[1] == 'a']); i = r.randrange(g[2])
                C.append('static unsigned *lp%d = &%s[%d]; unsigned %s = *lp%d ^ %s;' % (nv[0], g[0], i, v, nv[0], e))
                P.append('%s = (G[%r][%d] ^ %s) & M' % (v, g[0], i, p)); vs.append(v)
            else:
                e2, p2 = self.expr(vs, unit); e3, p3 = self.expr(vs, unit)
                C.append('unsigned %s; if((%s) & 1){ %s = %s; } else { %s = %s; }' % (v, e, v, e2, v, e3))
                P.append('%s = (%s) if (%s) & 1 else (%s)' % (v, p2, p, p3)); vs.append(v)
            if statics and r.random() < .25:
                s, ps = r.choice(statics); w = newv(); e, p = self.expr(vs, unit)
                C.append('unsigned %s = %s(%s);' % (w, s, e)); P.append('%s = %s(%s)' % (w, ps, p)); vs.append(w)
        return C, P, vs

    def gen_functions(self, n):
        r = self.r
        # statics that share a name across the units
        per_unit = [[] for _ in range(self.nu)]
        if self.has('nostatics'):
            for i in range(r.randint(0, 2)):
                nm = 'local_%d' % i
                for u in range(self.nu):
                    if r.random() < .75:
                        c = r.randint(1, M); pn = '%s_%d' % (nm, u)
                        gv = 'priv_%d' % i; iv = r.randint(0, 1000)
                        if r.random() < .5:
                            self.put('static unsigned %s = %d;' % (gv, iv), u)
                            self.put('static unsigned %s(unsigned x){ %s += 1; return (x ^ %du) + %s; }' % (nm, gv, c, gv), u)
                            self.py.append('P_%s = [%d]\ndef %s(x):\n    P_%s[0] += 1\n    return ((x ^ %d) + P_%s[0]) & M' % (pn, iv, pn, pn, c, pn))
                        else:
                            self.put('static unsigned %s(unsigned x){ return x ^ %du; }' % (nm, c), u)
                            self.py.append('def %s(x): return (x ^ %d) & M' % (pn, c))
                        per_unit[u].append((nm, pn))
        self.hdr_funcs = []
        if self.has('nohdr'):
            for i in range(r.choice([0, 0, 1, 2])):
                nm = 'hs_%d' % i; k = r.random(); c = r.randint(1, M); q = r.choice(['static ', 'static inline ', 'static __forceinline '])
                if k < .4:
                    self.hdr_funcs.append('%sunsigned %s(unsigned x){ return x * 3u ^ %du; }' % (q, nm, c)); self.py.append('def %s(x): return (x * 3 ^ %d) & M' % (nm, c))
                    for u in range(self.nu): per_unit[u].append((nm, nm))
                elif k < .75:      # a static counter inside: one per unit
                    self.hdr_funcs.append('%sunsigned %s(unsigned x){ static unsigned n_%s = %d; n_%s += 7; return x + n_%s; }' % (q, nm, nm, c % 1000, nm, nm))
                    for u in range(self.nu):
                        self.py.append('Q_%s_%d = [%d]\ndef %s_%d(x):\n    Q_%s_%d[0] += 7\n    return (x + Q_%s_%d[0]) & M' % (nm, u, c % 1000, nm, u, nm, u, nm, u)); per_unit[u].append((nm, '%s_%d' % (nm, u)))
                else:              # its value depends on a macro of the unit that includes it
                    self.hdr_funcs.append('%sunsigned %s(unsigned x){\n#ifdef HMAC_%d\n    return x ^ HMAC_%d;\n#else\n    return x + %du;\n#endif\n}' % (q, nm, i, i, c))
                    for u in range(self.nu):
                        if r.random() < .5:
                            v = r.randint(0, 1 << 20); self.macros[u].append(('HMAC_%d' % i, v)); self.py.append('def %s_%d(x): return (x ^ %d) & M' % (nm, u, v))
                        else: self.py.append('def %s_%d(x): return (x + %d) & M' % (nm, u, c))
                        per_unit[u].append((nm, '%s_%d' % (nm, u)))
        cost = {}
        for idx in range(n):          # function idx may call the ones before it
            nm = self.name('f'); u = self.unit()
            cand = [f for f in self.funcs if cost[f['name']] < 60]
            callees = r.sample(cand, min(len(cand), r.choice([0, 1, 1, 2, 2])))
            cost[nm] = 1 + sum(cost[c['name']] for c in callees)
            ss = [x for x in self.structs if not x.union and x.scalars()]
            kind = 's' if ss and r.random() < .2 else 'u'
            f = {'name': nm, 'kind': kind, 'unit': u}
            if kind == 'u':
                C, P, vs = self.body(nm, u, ['a', 'b'], callees, per_unit[u])
                e, p = self.expr(vs, u, 1)
                e = ' ^ '.join([e] + vs[2:]); p = ' ^ '.join([p] + vs[2:])
                q = r.choice(['', '', '', '__declspec(noinline) ', 'extern '])
                self.put('%s%s %s(%s a, %s b){\n    %s\n    return %s;\n}' % (q, self.u32(), nm, self.u32(), self.u32(), '\n    '.join(C), e), u, ent=nm)
                self.py.append('def %s(a, b):\n    %s\n    return (%s) & M' % (nm, '\n    '.join(P) or 'pass', p))
                if r.random() < .3: self.put('%sunsigned %s(unsigned, unsigned);' % (r.choice(['', 'extern ']), nm))
                if r.random() < .3:
                    pn = self.name('fp')
                    if r.random() < .5:
                        self.put('unsigned (*%s)(unsigned, unsigned) = %s%s;' % (pn, r.choice(['', '&']), nm), ent=pn)
                    else:
                        td = self.name('ft'); self.put('typedef unsigned %s(unsigned, unsigned);' % td, ent=td); self.put('%s *%s = %s;' % (td, pn, nm), ent=pn)
                    f['ptr'] = pn
            else:
                s = r.choice(ss); f['s'] = s; sc = s.scalars()
                C, P, vs = self.body(nm, u, ['a'], callees, per_unit[u])
                C.append('%s ret = {0};' % self.sname(s)); P.append('ret = %r' % {p: 0 for p, _ in sc})
                for p_, t in r.sample(sc, min(len(sc), 3)):
                    e, p = self.expr(vs, u, 1)
                    C.append('ret.%s = %s;' % (p_, e)); P.append('ret[%r] = (%s) & %d' % (p_, p, (1 << (8 * min(4, SCALAR[t]))) - 1))
                self.put('%s %s(unsigned a){\n    %s\n    return ret;\n}' % (self.sname(s), nm, '\n    '.join(C)), u, ent=nm)
                self.py.append('def %s(a):\n    %s\n    return ret' % (nm, '\n    '.join(P)))
                if r.random() < .3: self.put('struct %s %s(unsigned x);' % (s.name, nm))
            self.funcs.append(f)
        return per_unit

    def generate(self, errors=()):
        r = self.r
        self.late = []
        self.macrotext = [[] for _ in range(self.nu)]
        self.scalar_td = []
        w = {'struct': r.choice([0, 1, 2, 4]), 'enum': r.choice([0, 1, 2]), 'td': r.choice([0, 1, 2]), 'glob': r.choice([1, 2, 4]), 'sized': r.choice([0, 0, 1])}
        for u in range(self.nu):
            for i in range(r.choice([0, 0, 1, 3])):
                self.macros[u].append(('MAC%d' % i, r.randint(0, 5000)))
        for _ in range(self.size):
            k = r.choices(list(w), list(w.values()))[0]
            {'struct': self.gen_struct, 'enum': self.gen_enum, 'td': self.gen_typedef, 'glob': self.gen_global, 'sized': self.gen_sized}[k]()
        nf = max(1, self.size // 2)
        per_unit = self.gen_functions(nf)
        # unit probes keep every static function alive
        probes = []
        for u in range(self.nu):
            if per_unit[u]:
                nm = 'probe_%d' % u
                self.put('unsigned %s(void){ return %s; }' % (nm, ' + '.join('%s(%d)' % (a, i + 3) for i, (a, _) in enumerate(per_unit[u]))), u, ent=nm)
                self.py.append('def %s(): return (%s) & M' % (nm, ' + '.join('%s(%d)' % (b, i + 3) for i, (_, b) in enumerate(per_unit[u]))))
                probes.append(nm)
        C, P = ['unsigned h = 17;'], ['h = 17']
        roots = self.funcs[-6:] if len(self.funcs) > 6 else self.funcs
        for i, f in enumerate(roots):
            if f['kind'] == 'u':
                C.append('h = h * 31 + %s(%du, %du);' % (f['name'], i, i * 7 + 1)); P.append('h = (h * 31 + %s(%d, %d)) & M' % (f['name'], i, i * 7 + 1))
            else:
                sc = f['s'].scalars()
                C.append('{ struct %s x = %s(%du); h = h * 31 + (unsigned)sizeof(x); %s }' % (f['s'].name, f['name'], i, ' '.join('h = h * 3 + (unsigned)x.%s;' % p for p, _ in sc)))
                P.append('x = %s(%d); h = (h * 31 + %d) & M' % (f['name'], i, f['s'].size))
                P += ['h = (h * 3 + x[%r]) & M' % p for p, _ in sc]
        for p in probes:
            C.append('h = h * 33 + %s();' % p); P.append('h = (h * 33 + %s()) & M' % p)
        for g, kind, det in self.globs:
            if kind == 'u': C.append('h = h * 37 + %s;' % g); P.append('h = (h * 37 + G[%r][0]) & M' % g)
            if kind == 'a':
                C.append('for(unsigned i = 0; i < sizeof(%s)/4; i++) h = h * 37 + %s[i];' % (g, g)); P.append('for x in G[%r]: h = (h * 37 + x) & M' % g)
            if kind == 'c': C.append('for(unsigned i = 0; i < %d; i++) h = h * 5 + (unsigned)%s[i];' % (det, g)); P.append('for x in G[%r]: h = (h * 5 + x) & M' % g)
            if kind == 's':
                for p_, t in det.scalars(): C.append('h = h * 37 + (unsigned)%s.%s;' % (g, p_)); P.append('h = (h * 37 + G[%r][%r]) & M' % (g, p_))
            if kind == 'p': C.append('h = h * 37 + *%s;' % g); P.append('h = (h * 37 + G[%r][0][G[%r][1]]) & M' % (g, g))
        self.xc, self.xp = [], []
        if self.has('noextra'):
            for _ in range(r.choice([0, 1, 2, 4, max(1, self.size // 3)])): self.gen_extra()
        C += self.xc; P += self.xp
        for k in errors: self.inject(k)
        C += self.late
        self.put('int _start(void){\n    %s\n    return (int)h;\n}' % '\n    '.join(C), ent='_start')
        self.py.append('def _start():\n    %s\n    return h' % '\n    '.join(P))
        for d in self.decls: r.shuffle(d)
        return self

    # ---- errors ------------------------------------------------------------------------------------------------
    KINDS = ['undef_id', 'undef_type', 'undef_func', 'struct_conflict', 'enum_conflict', 'type_conflict', 'redef_func', 'redef_glob', 'typedef_conflict',
             'syntax', 'member', 'assert', 'hash_error', 'no_include', 'undef_glob', 'kind_conflict', 'sig_conflict', 'mismatch', 'body_syntax', 'asize_conflict', 'typo_type',
             'nonconst_init', 'nonconst_static', 'nonconst_literal', 'goto_undef', 'dup_label', 'break_out', 'continue_out', 'case_out', 'default_out', 'dup_default', 'dup_case',
             'arg_few', 'arg_many', 'call_nonfunc', 'incomplete_local', 'incomplete_sizeof', 'circular', 'tls_conflict', 'too_many', 'dup_member', 'unterm_if', 'unterm_str', 'macro_args',
             'assert_local', 'static_redef', 'tag_conflict', 'typedef_var', 'var_as_type', 'desig', 'desig_arr', 'lvalue', 'elem_conflict', 'ret_conflict', 'asm_undef', 'enum_dup', 'struct_init',
             'static_undef', 'export_undef', 'unterm_body', 'extern_init', 'ret_void', 'ret_missing', 'member_conflict', 'member_order', 'local_asize', 'enum_nonconst', 'param_conflict', 'def_declares',
             'assert_late', 'if_expr', 'no_return_type', 'static_conflict', 'alt_defined', 'incomplete_param', 'incomplete_ret', 'unterm_literal', 'body_undef_type', 'wide_field', 'void_var', 'inc_cycle',
             'tag_use', 'asize_def', 'tag_typedef', 'ptr_conflict']
    LINK_ONLY = {'undef_func', 'undef_glob', 'static_undef', 'export_undef'}     # an object file may leave these to the linker

    def inject(self, kind):
        """adds one mistake; returns the identifier its diagnostic has to name (or None) and the units that may be blamed"""
        r = self.r; n = self.name('bad'); u = self.unit(); v = self.unit()
        if kind == 'undef_id': self.put('unsigned %s(void){ return %s_x + 1; }' % (n, n), u); m = n + '_x'
        elif kind == 'undef_type': self.put('struct %s_t %s;' % (n, n), u); m = n
        elif kind == 'typo_type': self.put('%s_t %s;' % (n, n), u); m = n + '_t'
        elif kind == 'undef_func': self.put('unsigned %s(unsigned);' % n, u); self.put('unsigned %s_u(void){ return %s(3); }' % (n, n), v); self.late.append('%s_u();' % n); m = n
        elif kind == 'undef_glob': self.put('extern unsigned %s;' % n, u); self.late.append('h += %s;' % n); m = n
        elif kind == 'struct_conflict': self.put('struct %s { int a; };' % n, u); self.put('struct %s { int a; int b; };' % n, v); m = n
        elif kind == 'enum_conflict': a, b = self.values(); self.put('enum %s_a { %s = %s };' % (n, n, a), u); self.put('enum %s_b { %s = %s };' % (n, n, b) if r.random() < .7 or not -9 < b < 2000 or b < 1 else 'enum %s_b { %s_0 = %d, %s };' % (n, n, b - 1, n), v); m = n
        elif kind == 'type_conflict': a, b = self.twotypes(n); self.put(r.choice(['', 'extern ']) + a % n + ';', u); self.put(r.choice(['', 'extern ']) + b % n + ';', v); m = n
        elif kind == 'kind_conflict': self.put('typedef unsigned %s;' % n, u); self.put('unsigned %s(void){ return 1; }' % n, v); m = n
        elif kind == 'sig_conflict': k = r.choice([1, 1, 2, 3, 5, 7]); self.put('unsigned %s(%s){ return a0; }' % (n, ', '.join('unsigned a%d' % i for i in range(k))), u); self.put('unsigned %s(%s);' % (n, r.choice([', '.join('unsigned b%d' % i for i in range(k + 1)), ', '.join('unsigned b%d' % i for i in range(k)) + ', ...', ', '.join('unsigned b%d' % i for i in range(k - 1)) or 'void'])), v); m = n
        elif kind == 'redef_func': self.put('unsigned %s(void){ return 1; }' % n, u); self.put('unsigned %s(void){ return 2; }' % n, v); m = n
        elif kind == 'redef_glob': q = r.choice(['', '', '', '__declspec(dllexport) ', '_Alignas(16) ']); self.put('%sunsigned %s = %d;' % (q, n, r.choice([1, 0])), u); self.put('%sunsigned %s = 2;' % (q, n), v); m = n
        elif kind == 'asize_conflict': k = r.choice([1, 2, 3, 64, 256, 65536]); a, b = r.sample(['[%d]' % k, '[%d]' % (k + r.choice([1, 1, 256]))] if r.random() < .6 else ['[2][%d]' % k, '[2][%d]' % (k + 1)] if r.random() < .5 else ['[][%d]' % k, '[][%d]' % (k + 1)], 2); self.put('%sunsigned %s%s;' % ('extern ' if '[]' in a or r.random() < .3 else '', n, a), u); self.put('%sunsigned %s%s;' % ('extern ' if '[]' in a or r.random() < .7 else '', n, b), v); m = n
        elif kind == 'typedef_conflict': a, b = self.twotypes(n); self.put('typedef ' + a % n + ';', u); self.put('typedef ' + b % n + ';', v); m = n
        elif kind == 'syntax': self.put('unsigned %s 3;' % n, u); m = None
        elif kind == 'body_syntax': self.put('unsigned %s(void){ return 3 3; }' % n, u); m = None
        elif kind == 'member':
            s = r.choice(self.structs).name if self.structs and not self.structs[0].union else None
            if not s: s = n + '_s'; self.put('struct %s { int a; };' % s, v)
            if any(x.name == s and x.union for x in self.structs): return self.inject('undef_id')
            self.put('unsigned %s(struct %s *p){ return (unsigned)p->%s_m; }' % (n, s, n), u); m = n + '_m'
        elif kind == 'assert':
            if self.structs and r.random() < .7:
                s = r.choice(self.structs); self.put('_Static_assert(sizeof(%s) == %d, "%s");' % (('union ' if s.union else 'struct ') + s.name, s.size + 1, n), u)
            else:
                self.put('_Static_assert(%s_v == 3, "%s");' % (n, n), u); self.put('enum %s_e { %s_v = 4 };' % (n, n), v)
            m = n
        elif kind == 'hash_error': self.macrotext[u].append('#error %s' % n); m = n
        elif kind == 'no_include': self.macrotext[u].append('#include "%s.h"' % n); m = n
        elif kind == 'mismatch': self.put('struct %s_s { int a; };' % n, u); self.put('unsigned %s(void){ struct %s_s x = {0}; return x + 1; }' % (n, n), v); m = None
        else: m, v = self.inject2(kind, n, u, v)
        self.marks.append((kind, m, sorted({u, v})))

    def values(self):
        """two different values of an enumerator"""
        r = self.r; a = r.choice([0, 1, 3, 4, 255, 65535, r.getrandbits(30)]); k = r.randrange(3)
        return r.sample([a, a ^ 1 << r.randrange(31) if k == 0 else a + 1 if k == 1 else -a - 1], 2)
    def twotypes(self, n, ret=False):
        """declarators of two types that are not compatible"""
        r = self.r; B = ['unsigned', 'int', 'short', 'unsigned short', 'unsigned char', 'signed char', 'long long', 'unsigned long long', 'float', 'double']; a, b = r.sample(B, 2); k = r.randrange(8)
        if k < 3: x = a + ' %s', b + ' %s'
        elif k == 3: p = '*' * r.choice([1, 1, 2, 3]); x = '%s %s%%s' % (a, p), '%s %s%%s' % (b, p)
        elif k == 4: p = '*' * r.choice([1, 2]); x = '%s %s%%s' % (a, p), '%s %s%%s' % (a, p + '*')
        elif k == 5: x = 'struct %s_x *%%s' % n, 'struct %s_y *%%s' % n; [self.put('struct %s_%s { int a; };' % (n, q), self.unit()) for q in 'xy']
        elif k == 6 and not ret:
            q = ['int', 'int', 'int'][:r.choice([0, 1, 2])]; i = r.randrange(len(q) + 1); f = '%s (*%%%%s)(%s)'
            x = (f % (a, ', '.join(q[:i] + ['unsigned *'] + q[i:])), f % (a, ', '.join(q[:i] + ['float'] + q[i:]))) if r.random() < .6 else (f % (a, 'int'), f % (b, 'int')) if r.random() < .5 else (f % (a, 'int'), f % (a, 'int, int'))
            x = x[0].replace('%%', '%'), x[1].replace('%%', '%')
        else: x = a + ' %s', a + ' *%s'
        return r.sample(list(x), 2)
    def inject2(self, kind, n, u, v):
        r = self.r; m = n
        P = lambda t, w=u: self.put(t.replace('@', n), w)
        C = lambda t: self.late.append(t.replace('@', n))
        if kind == 'nonconst_init': P('unsigned @_f(void){ return 3; }', v); P('unsigned @ = @_f();'); C('h += @;'); m = None
        elif kind == 'nonconst_static': P('unsigned @_f(void){ return 3; }', v); P('unsigned @(void){ static unsigned @_s = @_f(); return @_s; }'); C('h += @();'); m = None
        elif kind == 'nonconst_literal': P('unsigned @_f(void){ return 3; }', v); P('unsigned *@ = (unsigned[]){1, @_f()};'); C('h += @[1];'); m = None
        elif kind == 'goto_undef':     # another function has the label
            P('unsigned @_g(unsigned a){ if(a > 3) goto @_l; a += 3; @_l: return a; }', r.choice([u, v])); P('unsigned @(unsigned a){ if(a > 3) goto @_l; return a; }'); m = n + '_l'
        elif kind == 'dup_label': P('unsigned @(unsigned a){ @_l: a += 3; if(a < 9) goto @_l; @_l: return a; }'); m = n + '_l'
        elif kind == 'break_out': P('unsigned @(unsigned a){ while(a < 9){ a += 3; break; } if(a) break; return a; }'); m = None
        elif kind == 'continue_out': P('unsigned @(unsigned a){ while(a < 9){ a += 3; continue; } switch(a){ case 1: continue; } return a; }'); m = None
        elif kind == 'case_out': P('unsigned @(unsigned a){ switch(a){ case 1: a = 3; } case 2: return a; }'); m = None
        elif kind == 'default_out': P('unsigned @(unsigned a){ switch(a){ default: a = 3; } default: return a; }'); m = None
        elif kind == 'dup_default': P('unsigned @(unsigned a){ switch(a){ default: a = 3; case 4: a += 4; break; default: a = 9; } return a; }'); m = None
        elif kind == 'dup_case':
            L = r.sample(range(4, 60), r.choice([2, 3, 8, 20])); d = r.choice(L); L.insert(r.randrange(len(L) + 1), -d); x = r.choice(['%d', '%d', '0x%x', '@_v + %d'])
            if '@' in x: P('enum @_e { @_v = 0 };', v)
            P('unsigned @(unsigned a){ switch(a){ %s } return a; }' % ' '.join('case %s: a %s= 3;%s' % (x % -q if q < 0 else q, r.choice('+^*'), r.choice(['', ' break;'])) for q in L)); m = None
        elif kind == 'arg_few': k = r.choice([2, 2, 3, 4, 6]); P('unsigned @(%s){ return a0; }' % ', '.join('unsigned a%d' % i for i in range(k)), v); P('unsigned @_g(void){ return @(%s); }' % ', '.join('%d' % i for i in range(k - 1)))
        elif kind == 'arg_many': k = r.choice([1, 2, 4, 6]); P('unsigned @(%s){ return a0; }' % ', '.join('unsigned a%d' % i for i in range(k)), v); P('unsigned @_g(void){ return @(%s); }' % ', '.join('%d' % i for i in range(k + 1)))
        elif kind == 'call_nonfunc': P('unsigned @;', v); P('unsigned @_g(void){ return @(1); }')
        elif kind == 'incomplete_local': P('unsigned @(void){ struct @_s x; return 3; }'); m = n + '_s'
        elif kind == 'incomplete_sizeof': P('unsigned @(void){ return sizeof(union @_s); }'); m = n + '_s'
        elif kind == 'circular':
            k = r.choice([1, 2, 3, 5])
            for i in range(k): P('struct @_%d { int a; struct @_%d b; };' % (i, (i + 1) % k), r.choice([u, v]))
            m = n
        elif kind == 'tls_conflict': P('%s unsigned @%s;' % (r.choice(['extern', '']), ''), v); P('__declspec(thread) unsigned @ = 3;')
        elif kind == 'too_many': P('unsigned @[2] = {1, 2, 3};'); m = None
        elif kind == 'dup_member': P('struct @ { int a; unsigned @_m; struct { char b; short @_m; }; };' if r.random() < .5 else 'struct @ { int @_m; char @_m; };'); m = n + '_m'
        elif kind == 'unterm_if': self.macrotext[u].append('#if 1'); m = None
        elif kind == 'unterm_str': P('char *@ = "abc;'); m = None
        elif kind == 'macro_args': self.macrotext[u].append(('#define @_m(a, b) (a + b)\nunsigned @ = @_m(1);').replace('@', n)); m = n + '_m'
        elif kind == 'assert_local': P('unsigned @_f(void){ { _Static_assert(sizeof(struct @_s) == 5, "@"); } return 3; }'); P('struct @_s { unsigned a; };', v)
        elif kind == 'static_redef': P('static unsigned @(void){ return 1; }'); P('static unsigned @(void){ return 2; }')
        elif kind == 'tag_conflict': k = r.sample(['struct @ { int a; };', 'union @ { int a; };', 'enum @ { @_e };'], 2); P(k[0]); P(k[1], v)
        elif kind == 'tag_use': k = r.sample(['struct', 'union', 'enum'], 2); P('extern %s @ *@_x;' % k[0]); P(('enum @ { @_e };' if k[1] == 'enum' else k[1] + ' @ { int a; };'), v)
        elif kind == 'asize_def': a, b = r.sample([1, 2, 3, 4, 8], 2); P('extern unsigned @[%d];' % a); P('unsigned @[] = {%s};' % ', '.join(str(i + 3) for i in range(b)), v); C('h += @[0];') if r.random() < .5 else None
        elif kind == 'tag_typedef': k = r.sample(['struct', 'union', 'struct', 'enum'], 2); q = r.choice(['', '', '*']); P('typedef %s @_a %s@;' % (k[0], q)); P('typedef %s @_b %s@;' % (k[1], q), v); [P(('enum @_%s { @_%se };' % (t, t) if kk == 'enum' else '%s @_%s { int a; };' % (kk, t)), self.unit()) for t, kk in zip('ab', k)]
        elif kind == 'ptr_conflict': q = r.choice(['*', '*', '**']); P('extern struct @_a %s@;' % q); P('extern struct @_b %s@;' % q, v); [P('struct @_%s { int a; };' % t, self.unit()) for t in 'ab' if r.random() < .7]
        elif kind == 'typedef_var': P('typedef unsigned @;', v); P('unsigned @_f(void){ return @ + 1; }')
        elif kind == 'var_as_type': P('unsigned @;', v); P('@ @_f;')
        elif kind == 'desig': P('struct @_s { int a; };', v); P('struct @_s @ = {.@_m = 2};'); m = n + '_m'
        elif kind == 'desig_arr': P('unsigned @[2] = {[2] = 2};'); m = None
        elif kind == 'lvalue': P('unsigned @(unsigned a){ (a + 1) = 3; return a; }'); m = None
        elif kind == 'elem_conflict': a, b = self.twotypes(n); k = r.choice([1, 3, 9]); P('extern ' + a % ('@[%d]' % k) + ';', v); P(b % ('@[%d]' % k) + ';')
        elif kind == 'ret_conflict': a, b = self.twotypes(n, True); P('extern ' + a % '@(void)' + ';', v); P(b % '@(void)' + ';')
        elif kind == 'asm_undef': P('__declspec(inline_asm) unsigned @(unsigned a){ mov eax, @_q\n return eax }'); m = n + '_q'
        elif kind == 'enum_dup': P('enum @_t { @, @_b, @ };')
        elif kind == 'struct_init': P('struct @_s { int a; };', v); P('struct @_s @ = {1, 2};'); m = None
        elif kind == 'static_undef': P('static unsigned @(void);'); P('unsigned @_g(void){ return @() + 1; }'); C('h += @_g();')
        elif kind == 'export_undef': P('__declspec(dllexport) unsigned @(void);', v); P('unsigned @(void);'); C('h += @();')
        elif kind == 'unterm_body': self.put('unsigned %s(void){ if(1){ return 3; }' % n, u); m = None
        elif kind == 'extern_init': P('extern unsigned @ = 1;', v); P('unsigned @ = 1;')
        elif kind == 'ret_void': P('void @(void){ return 3; }'); m = None
        elif kind == 'ret_missing': P('unsigned @(void){ return; }'); m = None
        elif kind == 'member_conflict':
            if r.random() < .4: P('struct @ { int a; int b; };'); P('struct @ { int a; int c; };', v)
            else:
                a, b = self.twotypes(n); z = ['int z%d;' % q for q in range(r.choice([0, 1, 2, 5, 9]))]; q = r.randrange(len(z) + 1); k = r.choice(['struct', 'struct', 'union'])
                if '(' not in a and r.random() < .25: a, b = r.sample(['unsigned %%s : %d' % r.randrange(1, 16), 'unsigned %%s : %d' % r.randrange(16, 33)], 2)
                if '(' not in a and ':' not in a and r.random() < .25: a, b = r.sample([a + '[%d]' % r.randrange(1, 5), a + '[%d]' % r.randrange(5, 9)], 2)
                P('%s @ { %s };' % (k, ' '.join(z[:q] + [a % 'x' + ';'] + z[q:]))); P('%s @ { %s };' % (k, ' '.join(z[:q] + [b % 'x' + ';'] + z[q:])), v)
        elif kind == 'member_order': P('struct @ { int a; unsigned b; };'); P('struct @ { unsigned a; int b; };', v)
        elif kind == 'local_asize': P('unsigned @(unsigned a){ unsigned x[a]; return x[0]; }'); m = None
        elif kind == 'enum_nonconst': P('unsigned @_v;', v); P('enum @ { @_a = 3, @_b = @_v };'); m = n + '_v'
        elif kind == 'param_conflict': a, b = self.twotypes(n); i, k = sorted([r.randrange(6), r.randrange(6)]); z = ['int z%d' % q for q in range(k + 1)]; P('unsigned @(%s){ return 3; }' % ', '.join(z[:i] + [a % 'x'] + z[i + 1:]), v); P('unsigned @(%s);' % ', '.join(z[:i] + [b % 'x'] + z[i + 1:]))
        elif kind == 'def_declares': P('unsigned @(unsigned a){ return a; }', v); P('extern unsigned @;')
        elif kind == 'assert_late': P('typedef struct { unsigned a; char b; } @_t;', v); P('_Static_assert(sizeof(@_t) == 5, "@");')
        elif kind == 'if_expr': self.macrotext[u].append('#if 3 +\n#endif'); m = None
        elif kind == 'no_return_type': P('static @(unsigned a){ return a; }'); m = None
        elif kind == 'static_conflict': a, b = self.twotypes(n); P('static ' + a % '@' + ';'); P('static ' + b % '@' + ';')
        elif kind == 'alt_defined': self.macrotext[u].append('#pragma comment(linker, "/ALTERNATENAME:%s_a=%s")' % (n, n)); P('unsigned @(void){ return 3; }', v)
        elif kind == 'incomplete_param': P('unsigned @(struct @_s a){ return 3; }'); m = n + '_s'
        elif kind == 'incomplete_ret': P('struct @_s *@_p; struct @_s @(void){ return *@_p; }'); m = n + '_s'
        elif kind == 'unterm_literal': P('unsigned @[] = {1, 2;'); m = None
        elif kind == 'body_undef_type': P('unsigned @(void){ @_t *p = 0; return 3; }'); m = n + '_t'
        elif kind == 'wide_field': P('struct @ { unsigned @_m : 33; };'); m = None
        elif kind == 'void_var': P('void @;')
        elif kind == 'inc_cycle': self.extra_files['%s.h' % n] = '#include "%s.h"\nunsigned %s;\n' % (n, n); self.macrotext[u].append('#include "%s.h"' % n); m = None
        return m, v

    def scatter(self, r):
        """moves shared declarations to other units; what uses or defines a private name stays where it is"""
        new = [[] for _ in range(self.nu)]
        for u, ds in enumerate(self.decls):
            for d in ds: new[u if re.search(r'\b(local_|priv_|data_|hs_|static |x\d+_c\(|HMAC|MAC\d|probe_|UNIT)', d) else r.randrange(self.nu)].append(d)
        self.decls = new
        for d in self.decls: r.shuffle(d)

    def make_headers(self, r):
        """moves declarations that may be repeated into headers that every unit includes"""
        self.hdr = []
        n = r.choice([1, 1, 2, 3])
        for i in range(n):
            self.hdr.append({'name': 'h%d.h' % i, 'dir': r.choice(['', '', 'inc/', 'inc/deep/']), 'guard': r.choice(['once', 'once', 'ifndef', 'none']), 'decls': [], 'inc': [j for j in range(i) if r.random() < .5]})
        frac = r.choice([.3, .7, 1])
        for u, ds in enumerate(self.decls):
            keep = []
            for d in ds:
                typ = re.match(r'(struct|union|enum) \w+ \{\n', d) or d.startswith(('typedef ', '_Static_assert'))
                proto = not typ and '{' not in d and '=' not in d and (d.startswith('extern ') or re.search(r'\)\s*;$', d))
                if (typ or proto) and 'bad' not in d and r.random() < frac: r.choice(self.hdr)['decls'].append(d)
                else: keep.append(d)
            self.decls[u] = keep
        for d in self.hdr_funcs: r.choice(self.hdr)['decls'].append(d)
        self.hdr_funcs = []
        for h in self.hdr:
            r.shuffle(h['decls'])
            if h['guard'] == 'none' and (h['inc'] or any('static' in d or d.startswith(('struct', 'union', 'enum')) for d in h['decls'])): h['guard'] = 'once'
        self.inc_order = [r.sample(range(n), n) for _ in range(self.nu)]
        self.inc_twice = r.random() < .4
        self.inc_angle = r.random() < .4

    def inc_line(self, i, frm=''):
        h = self.hdr[i]
        if frm: return '#include "%s%s"' % ('../' * frm.count('/'), h['dir'] + h['name'])
        return '#include %s' % ('<%s>' % h['name'] if self.inc_angle and h['dir'] else '"%s%s"' % (h['dir'], h['name']))

    def incdirs(self):
        return ' '.join('-I%s' % d for d in sorted({h['dir'].rstrip('/') for h in self.hdr if h['dir']})) if self.hdr and self.inc_angle else ''

    def texts(self):
        out = {}
        if self.hdr_funcs and not self.hdr: self.hdr = [{'name': 'h0.h', 'dir': '', 'guard': 'once', 'decls': self.hdr_funcs, 'inc': []}]; self.hdr_funcs = []; self.inc_order = [[0]] * self.nu; self.inc_twice = self.inc_angle = False
        for u in range(self.nu):
            m = ''.join('#define %s %d\n' % x for x in self.macros[u])
            if self.hdr:
                o = list(self.inc_order[u])
                if self.inc_twice: o += o[:2]
                m += ''.join(self.inc_line(i) + '\n' for i in o)
            out['u%d.c' % u] = m + ''.join(x + '\n' for x in self.macrotext[u]) + '\n'.join(self.decls[u]) + '\n'
        for i, h in enumerate(self.hdr):
            t = ''.join(self.inc_line(j, h['dir'] or './') + '\n' if h['dir'] else '#include "%s%s"\n' % (self.hdr[j]['dir'], self.hdr[j]['name']) for j in h['inc']) + '\n'.join(h['decls']) + '\n'
            if h['guard'] == 'once': t = '#pragma once\n' + t
            if h['guard'] == 'ifndef': g = h['name'].upper().replace('.', '_'); t = '#ifndef %s\n#define %s\n%s#endif\n' % (g, g, t)
            out[h['dir'] + h['name']] = t
        out.update(self.extra_files)
        return out

    def expected(self):
        env = {'M': M, 'G': {}}
        exec('\n'.join(self.py), env)
        return env['_start']()


if __name__ == '__main__':
    import sys
    g = Gen(int(sys.argv[1]), 3, 14).generate()
    for k, v in g.texts().items(): print('//', k); print(v)
    print('\n'.join(g.py)); print(g.expected())
