"""P15: atomics, interlocked intrinsics and thread-local variables of produced programs, stepped instruction by instruction."""
import struct
from core import job, sched, get
from props import Prop, prop, bad_end, tail
import binfmt as B

# name: atomic type, plain type, bits, signed
TY = {'bool': ('atomic_bool', '_Bool', 8, 0), 'char': ('atomic_char', 'char', 8, 1), 'uchar': ('atomic_uchar', 'unsigned char', 8, 0), 'short': ('atomic_short', 'short', 16, 1),
      'ushort': ('atomic_ushort', 'unsigned short', 16, 0), 'int': ('atomic_int', 'int', 32, 1), 'uint': ('atomic_uint', 'unsigned', 32, 0), 'long': ('atomic_long', 'long', 32, 1),
      'ulong': ('atomic_ulong', 'unsigned long', 32, 0), 'llong': ('atomic_llong', 'long long', 64, 1), 'ullong': ('atomic_ullong', 'unsigned long long', 64, 0),
      'i8': ('char', 'char', 8, 1), 'i16': ('short', 'short', 16, 1), 'i32': ('long', 'long', 32, 1), 'i64': ('__int64', '__int64', 64, 1), 'i128': ('', '', 128, 0), 'ptr': ('int *_Atomic', 'int *', 64, 0), 'iptr': ('void *', 'void *', 64, 0)}
SFX = {'i8': '8', 'i16': '16', 'i32': '', 'i64': '64'}
M64 = (1 << 64) - 1
IMPORTS = ('CreateThread', 'WaitForSingleObject', 'WriteFile', 'GetStdHandle')

def norm(t, v): return int(v != 0) if t == 'bool' else v & ((1 << TY[t][2]) - 1)
def u64(t, m):
    b = TY[t][2]
    return (m - (1 << b) if TY[t][3] and m >> (b - 1) else m) & M64

def apply(t, op, m, v):
    if op == '++': return 1 if t == 'bool' else norm(t, m + v)
    if op == '--': return m ^ 1 if t == 'bool' else norm(t, m - v)
    return norm(t, {'+': m + v, '-': m - v, '&': m & v, '|': m | v, '^': m ^ v}[op])

def step(t, m, op, rec):
    """the value after the operation if it may have seen `rec` on m, else None"""
    k = op['k']; new = m; out = []
    if k == 'ld': out = [m]
    elif k == 'st': new = norm(t, op['v'])
    elif k == 'xchg': new = norm(t, op['v']); out = [m]
    elif k == 'rmw': new = apply(t, op['op'], m, op['v']); out = {'none': [], 'old': [m], 'new': [new]}[op['ret']]
    elif k == 'cas':
        e = norm(t, op['e']); ok = m == e; new = norm(t, op['d']) if ok else m
        out = [('raw', int(ok)), m] if op['ret'] == 'ok' else [m]
    w = []
    for x in out:
        if isinstance(x, tuple): w.append(x[1])
        elif t == 'i128': w += [x & M64, x >> 64]
        elif t in ('ptr', 'iptr'): w.append(x)
        else: w.append(u64(t, x))
    if op.get('eq') is not None and w: w = [1 if w[0] == op['eq'] else 2]
    if op.get('drop'): w = []
    return new if w == rec else None

def explain(objs, threads, init, final, limit):
    """is there one order of all operations that respects the order of every thread and explains everything seen? None: too many states"""
    n = len(threads); cur = {(0,) * n: {init}}; count = 0; total = sum(map(len, threads))
    for _ in range(total):
        nxt = {}
        for pos, mems in cur.items():
            for i in range(n):
                if pos[i] >= len(threads[i]): continue
                o, op, rec = threads[i][pos[i]]; p2 = pos[:i] + (pos[i] + 1,) + pos[i + 1:]; j = objs[o][0]; t = objs[o][1]; s = None
                for m in mems:
                    x = step(t, m[j], op, rec)
                    if x is None: continue
                    if s is None: s = nxt.setdefault(p2, set())
                    if x != m[j]: m = m[:j] + (x,) + m[j + 1:]
                    if m not in s: s.add(m); count += 1
        if count > limit: return None
        if not nxt: return False
        cur = nxt
    return any(m == final for ms in cur.values() for m in ms)

class Prog:
    def __init__(self, r, tier):
        self.r = r; self.nt = r.choice([2, 2, 2, 3, 3, 4]); self.nu = r.choice([1, 1, 2, 3]); self.objs = []; self.tls = []; self.slots = [0] * self.nt; self.ops = [[] for _ in range(self.nt)]
        self.hdr = []; self.defs = [[] for _ in range(self.nu)]; self.fns = [[] for _ in range(self.nu)]; self.fixed = [[] for _ in range(self.nt)]; self.zero = []; self.checks = []
        self.members = []; self.local = []; self.body = [[] for _ in range(self.nt)]
        no = r.choice([1, 2, 2, 3, 3, 4, 5])
        for i in range(no): self.object(i)
        if self.members: self.struct()
        for i in range(r.choice([0, 1, 2, 3])): self.tlsvar(i)
        self.plan()
        self.emit()
    def val(self, t):
        r = self.r; b = TY[t][2]
        if t == 'bool': return r.randrange(2)
        if t in ('ptr', 'iptr'): return r.randrange(8)
        p = r.random()
        if p < .35: return r.choice([0, 1, 1, 2, 3, 5])
        if p < .6: return int.from_bytes(bytes([r.choice([0x11, 0x22, 0x5a, 0x80, 0xff, 0x7f])]) * (b // 8), 'big')
        return r.getrandbits(b)
    def lit(self, t, v):
        if t == 'bool': return str(v)
        if t == 'ptr': return '(arr + %d)' % v
        if t == 'iptr': return '((void *)(arr8 + %d))' % v
        s = '0x%xull' % v if TY[t][2] == 64 or self.r.random() < .5 else str(v) if v < 1 << 31 else '%du' % v
        return '(%s)%s' % (TY[t][1], s)
    def object(self, i):
        r = self.r; t = r.choice(['bool', 'char', 'uchar', 'short', 'ushort', 'int', 'int', 'uint', 'long', 'ulong', 'llong', 'llong', 'ullong', 'i8', 'i16', 'i32', 'i32', 'i64', 'i64', 'i128', 'ptr', 'iptr'])
        p = r.choice(['g', 'g', 's', 'a', 'p', 'st', 'f', 'fa']); n = 'v%d' % i; init = self.val(t) if r.random() < .7 else 0; u = r.randrange(self.nu); il = t in SFX or t in ('i128', 'iptr'); c = TY[t][0]
        if not il and t not in ('ptr', 'bool') and r.random() < .3: c = r.choice(['_Atomic %s', '_Atomic(%s)', '%s _Atomic']) % TY[t][1]
        if t == 'i128':
            init = (self.val('i64') | self.val('i64') << 64) if init else 0
            self.hdr.append('extern __declspec(align(16)) __int64 %s[2];' % n); self.defs[u].append('__declspec(align(16)) __int64 %s[2] = {0x%xll, 0x%xll};' % (n, init & M64, init >> 64)); f = [n]
        else:
            if t in ('ptr', 'iptr') and p in ('s', 'a', 'fa'): p = 'g'
            ini = ' = ' + self.lit(t, init) if init or t in ('ptr', 'iptr') else ''
            if p in ('s', 'a'):
                k = r.randrange(3) if p == 'a' else 0; m = 'm%d' % i; self.members.append((t, m, 3 if p == 'a' else 0, k, init)); a = '[%d]' % k if p == 'a' else ''
                f = ['sh.%s%s' % (m, a), 'shp()->%s%s' % (m, a), 'q->%s%s' % (m, a)]
                if p == 'a': f.append('q->%s[a%d]' % (m, k))
            elif p == 'st':
                ini = ' = ' + self.lit(t, init)
                self.local.append('%s %s%s; p_%s = &%s;' % (c, n, ini, n, n)); self.hdr.append('extern %s *p_%s;' % (c, n)); self.defs[u].append('%s *p_%s;' % (c, n)); f = ['(*p_%s)' % n, 'p_%s[0]' % n]
            elif p == 'f':
                self.hdr.append('%s *get_%s(void);' % (c, n)); self.defs[u].append('static %s %s%s;\n%s *get_%s(void){ return &%s; }' % (c, n, ini, c, n, n)); f = ['(*get_%s())' % n]
            elif p == 'fa':
                k = r.randrange(4); self.hdr.append('extern %s %s[4];' % (c, n)); xs = [self.lit(t, init if j == k else self.val(t)) for j in range(k + 1)]
                self.defs[u].append('%s %s[4] = {%s};' % (c, n, ', '.join(xs))); f = ['%s[%d]' % (n, k), '*(%s + %d)' % (n, k), '%s[a%d]' % (n, k)]; f[1] = '(' + f[1] + ')'
            else:
                self.hdr.append('extern %s %s;' % (c, n)); self.defs[u].append('%s %s%s;' % (c, n, ini)); f = [n, n]
                if p == 'p': f = ['(*l_%s)' % n, 'l_%s[0]' % n, n]
        self.objs.append({'t': t, 'init': init, 'forms': f, 'il': il, 'name': n, 'ptr': '%s *l_%s = &%s;' % (c, n, n) if p == 'p' and t != 'i128' else None})
    def struct(self):
        r = self.r; ms = []; xs = []
        for t, m, arr, k, init in self.members:
            if r.random() < .3: ms.append('char pad_%s;' % m); xs.append('7')
            ms.append('%s %s%s;' % (TY[t][0], m, '[3]' if arr else ''))
            xs.append('{%s}' % ', '.join(self.lit(t, init if j == k else self.val(t)) for j in range(3)) if arr else self.lit(t, init))
        if r.random() < .5: ms.append('int last;'); xs.append('9')
        u = r.randrange(self.nu); self.hdr.append('struct sh { %s };\nextern struct sh sh; struct sh *shp(void);' % ' '.join(ms)); self.defs[u].append('struct sh sh = {%s};\nstruct sh *shp(void){ return &sh; }' % ', '.join(xs))
    def tlsvar(self, i):
        r = self.r; n = 't%d' % i; k = r.choice(['g', 'g', 's', 'l', 'a', 'st']); t = r.choice(['char', 'short', 'int', 'uint', 'llong', 'uchar', 'ptr'])
        if t == 'ptr' and k in ('a', 'st'): k = 'g'
        c = TY[t][1]; kw = r.choice(['_Thread_local', '__declspec(thread)', 'thread_local' if False else '_Thread_local'])
        init = self.val(t) if r.random() < .75 else 0; ini = ' = ' + self.lit(t, init) if init or t == 'ptr' else ''; u = r.randrange(self.nu)
        if k == 'a':
            xs = [self.val(t) for _ in range(r.choice([1, 2, 4]))]; j = r.randrange(4); init = xs[j] if j < len(xs) else 0
            self.hdr.append('extern %s %s %s[4];' % (kw, c, n)); self.defs[u].append('%s %s %s[4] = {%s};' % (kw, c, n, ', '.join(self.lit(t, x) for x in xs))); f = '%s[%d]' % (n, j); l = None
        elif k == 'st':
            x = self.val('int'); self.hdr.append('struct s_%s { char a; int b; %s c; long long d[2]; };\nextern %s struct s_%s %s;' % (n, c, kw, n, n)); self.defs[u].append('%s struct s_%s %s = {1, %s, %s};' % (kw, n, n, self.lit('int', x), self.lit(t, init))); f = n + '.c'; l = None
        elif k == 'l':        # static, inside a function of one unit
            self.hdr.append('%s *ref_%s(void);' % (c, n)); self.defs[u].append('%s *ref_%s(void){ static %s %s x%s; return &x; }' % (c, n, kw, c, ini)); f = '(*ref_%s())' % n; l = None
        elif k == 's':
            self.hdr.append('%s *ref_%s(void);' % (c, n)); self.defs[u].append('static %s %s x_%s%s;\n%s *ref_%s(void){ return &x_%s; }' % (kw, c, n, ini, c, n, n)); f = '(*ref_%s())' % n; l = None
        else:
            self.hdr.append('extern %s %s %s;' % (kw, c, n)); self.defs[u].append('%s %s %s%s;' % (kw, c, n, ini)); f = n; l = None
        self.tls.append({'t': t, 'init': init, 'f': f, 'cur': [init] * self.nt, 'n': n})
    # ---- statements: (text, ops of the model); '@k' in the text is slot k of the statement
    def rhs(self, t, v):
        r = self.r; s = self.lit(t, v)
        if t in ('bool', 'ptr', 'iptr') or r.random() < .5: return s
        a = r.choice([1, 2, 3, 4]); n = (v - a) & ((1 << TY[t][2]) - 1)
        return '(%s)(%s + a%d)' % (TY[t][1], self.lit(t, n), a) if r.random() < .7 else '(%s)id(%s)' % (TY[t][1], s)
    def as64(self, t, e): return '(unsigned long long)((%s) - arr)' % e if t == 'ptr' else '(unsigned long long)((char *)(%s) - arr8)' % e if t == 'iptr' else '(unsigned long long)(%s)' % e
    def rec(self, o, e, op):
        """record the value of expression e in some context"""
        r = self.r; t = o['t']; c = r.randrange(9); x = self.as64(t, e)
        if c == 0: return 'h[@0] = ((a1 + a2 * a3) - (a1 + a2 * a3)) + %s;' % x
        if c == 1: return 'h[@0] = id(%s);' % x
        if c == 2: return 'h[@0] = second(a1 + a2, %s, a3 * a4 + a1, a2);' % x
        if c == 3: return 'h[@0] = (a1, %s);' % x
        if c == 4:
            v = u64(t, norm(t, self.val(t))) if t not in ('ptr', 'iptr') else self.val(t); op['eq'] = v
            return 'if(%s == 0x%xull) h[@0] = 1; else h[@0] = 2;' % (x, v)
        if c == 5: return 'h[@0] = a1 ? %s : 0;' % x
        if c == 6 and t not in ('ptr', 'iptr', 'bool'): return '{ %s z = %s; h[@0] = %s; }' % (TY[t][1], e, self.as64(t, 'z'))
        if c == 7: return '{ unsigned long long z[3] = {a1, %s, a2}; h[@0] = z[a1]; }' % x
        return 'h[@0] = %s;' % x
    def atomic(self, oi):
        r = self.r; o = self.objs[oi]; t = o['t']; L = r.choice(o['forms']); v = self.val(t)
        if t == 'i128': return self.wide(oi, L)
        if o['il']: return self.inter(oi, L)
        ex = r.choice(['', '', '_explicit']); mo = ', memory_order_seq_cst' if ex else ''
        k = r.choice(['ld', 'st', 'asg', 'asg', 'inc', 'inc', 'inc', 'xchg', 'fetch', 'fetch', 'cas', 'cas', 'loop'])
        if t == 'ptr': k = r.choice(['ld', 'st', 'asg', 'inc', 'inc'])
        if t == 'bool' and k in ('fetch', 'loop'): k = 'asg'
        if k == 'ld':
            op = {'k': 'ld'}; return self.rec(o, r.choice([L, 'atomic_load%s(&%s%s)' % (ex, L, mo)]) if t != 'ptr' else L, op), [(oi, op, 1)]
        if k == 'st':
            op = {'k': 'st', 'v': v}; return r.choice(['%s = %s;' % (L, self.rhs(t, v)), 'atomic_store%s(&%s, %s%s);' % (ex, L, self.rhs(t, v), mo)]), [(oi, op, 0)]
        if k == 'asg':
            f = r.choice(['|', '&', '^'] if t == 'bool' else ['+', '-'] if t == 'ptr' else ['+', '-', '|', '&', '^'])
            if t == 'ptr': v = r.choice([1, 2, 3])
            e = '%s %s= %s' % (L, f, str(v) if t == 'ptr' else self.rhs(t, v)); w = r.random() < .6; op = {'k': 'rmw', 'op': f, 'v': v, 'ret': 'new' if w else 'none'}
            return (self.rec(o, '(%s)' % e, op) if w else e + ';'), [(oi, op, int(w))]
        if k == 'inc':
            f = r.choice(['++', '--']); post = r.random() < .5; w = r.random() < .6; e = L + f if post else f + L
            op = {'k': 'rmw', 'op': f, 'v': 1, 'ret': ('old' if post else 'new') if w else 'none'}
            return (self.rec(o, '(%s)' % e, op) if w else e + ';'), [(oi, op, int(w))]
        if k == 'xchg':
            w = r.random() < .8; op = {'k': 'xchg', 'v': v}; e = 'atomic_exchange%s(&%s, %s%s)' % (ex, L, self.rhs(t, v), mo)
            if not w: op['drop'] = 1
            return (self.rec(o, e, op) if w else e + ';'), [(oi, op, int(w))]
        if k == 'fetch':
            f, n = r.choice([('+', 'add'), ('-', 'sub'), ('|', 'or'), ('^', 'xor'), ('&', 'and')]); w = r.random() < .75; op = {'k': 'rmw', 'op': f, 'v': v, 'ret': 'old' if w else 'none'}; e = 'atomic_fetch_%s%s(&%s, %s%s)' % (n, ex, L, self.rhs(t, v), mo)
            return (self.rec(o, e, op) if w else e + ';'), [(oi, op, int(w))]
        if k == 'loop':
            op = {'k': 'rmw', 'op': '+', 'v': v, 'ret': 'old'}
            return '{ %s e = %s; do {} while(!atomic_compare_exchange_%s(&%s, &e, (%s)(e + %s)%s)); h[@0] = %s; }' % (TY[t][1], L, r.choice(['strong', 'weak']), L, TY[t][1], self.lit(t, v), '', self.as64(t, 'e')), [(oi, op, 1)]
        op = {'k': 'cas', 'e': self.near(o), 'd': v, 'ret': 'ok'}
        return '{ %s e = %s; h[@0] = atomic_compare_exchange_%s(&%s, &e, %s%s); h[@1] = %s; }' % (TY[t][1], self.lit(t, op['e']), r.choice(['strong', 'weak']), L, self.rhs(t, v), '', self.as64(t, 'e')), [(oi, op, 2)]
    def near(self, o):
        return self.r.choice([o['init'], o['init'], self.val(o['t']), norm(o['t'], o['init'] + 1)] if o['t'] != 'i128' else [o['init'], 0])
    def inter(self, oi, L):
        r = self.r; o = self.objs[oi]; t = o['t']; v = self.val(t); w = r.random() < .75
        if t == 'iptr':
            k = r.choice(['ld', 'xchg', 'cas'])
            if k == 'ld': op = {'k': 'ld'}; return self.rec(o, L, op), [(oi, op, 1)]
            if k == 'xchg': op = {'k': 'xchg', 'v': v}; return self.rec(o, '_InterlockedExchangePointer(&%s, %s)' % (L, self.lit(t, v)), op), [(oi, op, 1)]
            op = {'k': 'cas', 'd': v, 'e': self.r.choice([o['init'], self.val(t)]), 'ret': 'old'}; return self.rec(o, '_InterlockedCompareExchangePointer(&%s, %s, %s)' % (L, self.lit(t, v), self.lit(t, op['e'])), op), [(oi, op, 1)]
        x = SFX[t]; k = r.choice(['ld', 'inc', 'inc', 'dec', 'add', 'add', 'xchg', 'cas', 'cas', 'or', 'and', 'xor', 'loop'])
        if k == 'ld': op = {'k': 'ld'}; return self.rec(o, L, op), [(oi, op, 1)]
        if k == 'loop':
            op = {'k': 'rmw', 'op': '+', 'v': v, 'ret': 'old'}; c = TY[t][1]
            return '{ %s e; do { e = %s; } while(_InterlockedCompareExchange%s(&%s, (%s)(e + %s), e) != e); h[@0] = %s; }' % (c, L, x, L, c, self.lit(t, v), self.as64(t, 'e')), [(oi, op, 1)]
        if k == 'cas': op = {'k': 'cas', 'd': v, 'e': self.near(o), 'ret': 'old'}; e = '_InterlockedCompareExchange%s(&%s, %s, %s)' % (x, L, self.rhs(t, v), self.lit(t, op['e']))
        elif k == 'xchg': op = {'k': 'xchg', 'v': v}; e = '_InterlockedExchange%s(&%s, %s)' % (x, L, self.rhs(t, v))
        elif k in ('inc', 'dec'): op = {'k': 'rmw', 'op': '+' if k == 'inc' else '-', 'v': 1, 'ret': 'new'}; e = '_Interlocked%s%s(&%s)' % ('Increment' if k == 'inc' else 'Decrement', x, L)
        else: op = {'k': 'rmw', 'op': {'add': '+', 'or': '|', 'and': '&', 'xor': '^'}[k], 'v': v, 'ret': 'old'}; e = '_Interlocked%s%s(&%s, %s)' % ({'add': 'ExchangeAdd', 'or': 'Or', 'and': 'And', 'xor': 'Xor'}[k], x, L, self.rhs(t, v))
        if not w: op['drop'] = 1
        return (self.rec(o, e, op) if w else e + ';'), [(oi, op, int(w))]
    def wide(self, oi, L):
        r = self.r; o = self.objs[oi]; d = self.val('i64') | self.val('i64') << 64
        if r.random() < .5:
            e = r.choice([o['init'], o['init'], 0, d]); op = {'k': 'cas', 'd': d, 'e': e, 'ret': 'ok'}
            return '{ __declspec(align(16)) __int64 e[2] = {0x%xll, 0x%xll}; h[@0] = _InterlockedCompareExchange128(%s, 0x%xll, 0x%xll, e); h[@1] = e[0]; h[@2] = e[1]; }' % (e & M64, e >> 64, L, d >> 64, d & M64), [(oi, op, 3)]
        op = {'k': 'rmw', 'op': '^', 'v': d, 'ret': 'old'}
        return '{ __declspec(align(16)) __int64 e[2] = {1, 2}; while(!_InterlockedCompareExchange128(%s, e[1] ^ 0x%xll, e[0] ^ 0x%xll, e)) {} h[@0] = e[0]; h[@1] = e[1]; }' % (L, d >> 64, d & M64), [(oi, op, 2)]
    def tlsop(self, i, T):
        r = self.r; o = self.tls[i]; t = o['t']; f = o['f']; v = self.val(t); k = r.choice(['ld', 'st', 'add', 'inc', 'adr', 'xor', 'call']); x = self.as64(t, f)
        if k == 'xor' and t == 'ptr': k = 'ld'
        if k == 'adr': return 'h[@0] = (unsigned long long)&%s;' % f, [('adr', i)]
        if k == 'st': o['cur'][T] = norm(t, v); return '%s = %s;' % (f, self.lit(t, v)), []
        if k == 'ld': return 'h[@0] = %s;' % x, [('val', u64(t, o['cur'][T]))]
        if k == 'inc': o['cur'][T] = norm(t, o['cur'][T] + 1); return '%s++;' % f, []
        if k == 'xor': o['cur'][T] = norm(t, o['cur'][T] ^ v); return 'h[@0] = (unsigned long long)(%s ^= %s);' % (f, self.lit(t, v)), [('val', u64(t, o['cur'][T]))]
        if k == 'call': return 'h[@0] = id(%s);' % x, [('val', u64(t, o['cur'][T]))]
        o['cur'][T] = norm(t, o['cur'][T] + v); return 'h[@0] = %s;' % self.as64(t, '(%s += %s)' % (f, str(v) if t == 'ptr' else self.lit(t, v))), [('val', u64(t, o['cur'][T]))]
    # ---- the threads
    def slot(self, T, n):
        k = self.slots[T]; self.slots[T] += n; return k
    def add(self, T, text, n):
        k = self.slot(T, n)
        for i in range(n): text = text.replace('@%d' % i, str(k + i))
        self.body[T].append(text); return k
    def plan(self):
        r = self.r; share = len(self.objs)
        budget = {2: 9, 3: 6, 4: 4}[self.nt]; lock = r.choice([None, None, 'flag', 'cas', 'il', 'ticket', 'bool', 'il8']); mp = r.random() < .25; self.dek = r.choice(['_mm_mfence();', '__faststorefence();', 'atomic_thread_fence(memory_order_seq_cst);']) if r.random() < .2 else None; self.dekker = []; once = r.random() < .2; sums = 0
        if lock:
            self.hdr.append({'flag': 'extern atomic_flag lk;', 'cas': 'extern atomic_int lk;', 'il': 'extern long lk;', 'il8': 'extern char lk;', 'ticket': 'extern atomic_uint lk, serving;', 'bool': 'extern atomic_bool lk;'}[lock] + ' extern long long pa, pb;')
            self.defs[r.randrange(self.nu)].append({'flag': 'atomic_flag lk = ATOMIC_FLAG_INIT;', 'cas': 'atomic_int lk;', 'il': 'long lk;', 'il8': 'char lk;', 'ticket': 'atomic_uint lk, serving;', 'bool': 'atomic_bool lk;'}[lock] + ' long long pa, pb;')
        if mp: self.hdr.append('extern long long mp_data[2]; extern atomic_int mp_flag;'); self.defs[r.randrange(self.nu)].append('long long mp_data[2]; atomic_int mp_flag;')
        if once: self.hdr.append('extern int once_data; extern atomic_int once_state, once_count;'); self.defs[r.randrange(self.nu)].append('int once_data; atomic_int once_state, once_count;')
        if self.dek: self.hdr.append('extern int dk[2];'); self.defs[r.randrange(self.nu)].append('int dk[2];')
        for T in range(self.nt):
            left = r.randrange(2, budget + 1)
            while left > 0:
                p = r.random()
                if p < .12 and left > 3:
                    n = r.choice([2, 3]); s = [self.atomic(r.randrange(share)) for _ in range(r.choice([1, 1, 2]))]
                    k = sum(x[2] for st in s for x in st[1]); b = self.slots[T]; txt = ''; off = 0
                    for tx, ops in s:
                        m = sum(x[2] for x in ops)
                        for i in range(m): tx = tx.replace('h[@%d]' % i, 'h[%d + i * %d]' % (b + off + i, k))
                        txt += ' ' + tx; off += m
                    self.slots[T] += k * n; self.body[T].append('for(int i = 0; i < %d; i++){%s }' % (n, txt))
                    for i in range(n):
                        off = 0
                        for tx, ops in s:
                            for oi, op, m in ops: self.ops[T].append([oi, op, [b + i * k + off + j for j in range(m)]]); off += m
                    left -= n * len(s)
                elif p < .7 or not (self.tls or lock):
                    tx, ops = self.atomic(r.randrange(share)); m = sum(x[2] for x in ops); k = self.add(T, tx, m)
                    for oi, op, n in ops: self.ops[T].append([oi, op, list(range(k, k + n))])
                    left -= 1
                elif (p < .87 and self.tls) or not lock:
                    tx, ops = self.tlsop(r.randrange(len(self.tls)), T); k = self.add(T, tx, len(ops))
                    for x in ops: self.fixed[T].append([k, x[0], x[1]])
                    left -= .3
                else:
                    c = r.randrange(1, 9); sums += c
                    a, z = {'flag': ('while(atomic_flag_test_and_set(&lk)) {}', 'atomic_flag_clear(&lk);'), 'cas': ('{ int e = 0; while(!atomic_compare_exchange_strong(&lk, &e, 1)) e = 0; }', r.choice(['lk = 0;', 'atomic_store(&lk, 0);', 'lk--;'])),
                            'il': ('while(_InterlockedExchange(&lk, 1)) {}', '_InterlockedExchange(&lk, 0);'), 'il8': ('while(_InterlockedCompareExchange8(&lk, 1, 0)) {}', r.choice(['_InterlockedExchange8(&lk, 0);', '_InterlockedDecrement8(&lk);', '_InterlockedAnd8(&lk, 0);'])),
                            'ticket': ('{ unsigned me = lk++; while(serving != me) {} }', r.choice(['serving++;', '++serving;', 'serving += 1;', 'atomic_fetch_add(&serving, 1);'])), 'bool': ('while(atomic_exchange(&lk, 1)) {}', r.choice(['lk = 0;', 'atomic_store(&lk, 0);']))}[lock]
                    k = self.add(T, '%s pa += %d; pb += %d; h[@0] = (unsigned long long)(pb - 3 * pa); %s' % (a, c, 3 * c, z), 1); self.fixed[T].append([k, 'val', 0]); left -= 1
            if mp:
                if T == 0: self.body[T].insert(r.randrange(len(self.body[T]) + 1), 'mp_data[0] = 0x1122334455667788; mp_data[1] = 99; %s' % r.choice(['mp_flag = 1;', 'atomic_store(&mp_flag, 1);', 'mp_flag++;', 'mp_flag |= 1;']))
                else: k = self.add(T, 'if(mp_flag){ h[@0] = mp_data[0]; h[@1] = mp_data[1]; }else{ h[@0] = 0x1122334455667788; h[@1] = 99; }', 2); self.fixed[T] += [[k, 'val', 0x1122334455667788], [k + 1, 'val', 99]]
            if self.dek and T < 2:
                k = self.slot(T, 1); self.dekker.append(k); self.body[T].insert(r.choice([0, 0, r.randrange(len(self.body[T]) + 1)]), 'dk[%d] = 1; %s h[%d] = dk[%d];' % (T, self.dek, k, 1 - T))
            if once:
                k = self.add(T, '{ int e = 0; if(atomic_compare_exchange_strong(&once_state, &e, 1)){ once_data = 4711; once_count++; once_state = 2; } while(once_state != 2) {} h[@0] = once_data; h[@1] = once_count; }', 2); self.fixed[T] += [[k, 'val', 4711], [k + 1, 'val', 1]]
        for T in range(self.nt):      # every thread-local variable ends as expected
            for o in self.tls:
                i = self.tls.index(o); k = self.add(T, 'h[@0] = %s; h[@1] = (unsigned long long)&%s;' % (self.as64(o['t'], o['f']), o['f']), 2); self.fixed[T] += [[k, 'val', u64(o['t'], o['cur'][T])], [k + 1, 'adr', i]]
        self.lock = lock; self.sums = sums
    def emit(self):
        r = self.r; self.finals = []; fin = []; n = max(self.slots) + 1; m = 0
        for o in self.objs:
            f = o['forms'][0]
            if o['t'] == 'i128': fin += ['g[%d] = %s[0];' % (m, f), 'g[%d] = %s[1];' % (m + 1, f)]; self.finals.append([m, m + 1]); m += 2
            else: fin.append('g[%d] = %s;' % (m, self.as64(o['t'], f if not f.startswith('(*l_') else o['name']))); self.finals.append([m]); m += 1
        al = []
        for o in self.objs:
            f = o['forms'][0]; f = o['name'] if f.startswith('(*l_') else f
            fin.append('g[%d] = (unsigned long long)%s%s;' % (m, '' if o['t'] == 'i128' else '&', f)); al.append([m, TY[o['t']][2] // 8]); m += 1
        if self.lock: fin.append('g[%d] = pa;' % m); self.checks.append([m, self.sums]); m += 1
        H = ['#pragma once', '#include <stddef.h>', '#include <stdatomic.h>', '#include <intrin.h>', 'extern unsigned long long H[%d][%d]; extern unsigned long long g[%d];' % (self.nt, n, m), 'extern int arr[64]; extern char arr8[64];',
             '__declspec(dllimport) void *CreateThread(void *, unsigned long long, unsigned (*)(void *), void *, unsigned, unsigned *);', '__declspec(dllimport) unsigned WaitForSingleObject(void *, unsigned);',
             '__declspec(dllimport) int WriteFile(void *, void *, unsigned, unsigned *, void *);', '__declspec(dllimport) void *GetStdHandle(unsigned);',
             'static unsigned long long id(unsigned long long v){ return v; }', 'static unsigned long long second(int a, unsigned long long v, long long c, int d){ return a + d + c ? v : v; }'] + self.hdr
        H += ['unsigned th%d(void *);' % T for T in range(self.nt)]
        self.defs[r.randrange(self.nu)].append('unsigned long long H[%d][%d]; unsigned long long g[%d]; int arr[64]; char arr8[64];' % (self.nt, n, m))
        for T in range(self.nt):
            loc = 'unsigned long long *h = H[%d]; int a0 = 0, a1 = 1, a2 = 2, a3 = 3, a4 = 4;' % T + (' struct sh *q = &sh;' if self.members else '') + ''.join(' ' + o['ptr'] for o in self.objs if o['ptr'])
            self.fns[r.randrange(self.nu)].append('unsigned th%d(void *p){ %s (void)a4; (void)a3; (void)a0;\n    %s\n    return 0; }' % (T, loc, '\n    '.join(self.body[T])))
        mk = ' '.join('void *t%d = CreateThread(0, 0, th%d, 0, 0, 0);' % (T, T) for T in range(1, self.nt)); wt = ' '.join('WaitForSingleObject(t%d, ~0u);' % T for T in range(1, self.nt))
        self.fns[0].append('int _start(void){ unsigned w; %s\n    %s th0(0); %s\n    %s\n    void *o = GetStdHandle((unsigned)-11); WriteFile(o, H, sizeof(H), &w, 0); WriteFile(o, g, sizeof(g), &w, 0); return 0; }' % (' '.join(self.local), mk, wt, '\n    '.join(fin)))
        self.files = {'k.lib': B.implib('kernel32.dll', [(x, 0, False) for x in IMPORTS]), 'stddef.h': '#pragma once\ntypedef unsigned long long size_t, uintptr_t; typedef long long intptr_t; typedef unsigned short wchar_t;\n', 'malloc.h': '', 'crtdefs.h': '', 'p.h': '\n'.join(H) + '\n'}
        for u in range(self.nu): self.files['u%d.c' % u] = '#include "p.h"\n' + '\n'.join(self.defs[u] + self.fns[u]) + '\n'
        self.n = n; self.m = m; self.align = al

@prop
class P15(Prop):
    id = 'P15'
    cases = (1300, 20000)
    drop_jobs = True
    rule = ('a case is a program of 2..4 threads and 1..3 units that works on 1..5 shared atomic or interlocked objects of all widths, thread-local variables, locks, messages and one-time initialisation, compiled once under a random schedule and then executed 12 times '
            'with a scheduling decision at every instruction, 9 times of these with delayed stores; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        g = Prog(r, tier); tc = r.choice([1, 1, 2, 3, 4])
        js = {'c': job(g.files, 'hlc.exe %s -I . -nostdlib -l k -quiet%s -out a.exe -thread_count %d' % (' '.join('u%d.c' % u for u in range(g.nu)), r.choice(['', ' -nodebug']), tc), sched=sched(r) if tc > 1 else None)}
        for i in range(12):
            x = [['imageof', 'c c:/work/a.exe'], ['cmd', 'a.exe'], ['step', 1], ['seed', r.getrandbits(40)], ['tso', r.choice([0, 1, 1, 1]) * r.getrandbits(20)], ['fair', r.choice([300, 2000])]]; m = r.choice([1, 1, 1, 2, 3]); x.append(['mode', m])
            if m == 1: x.append(['mean', r.choice([1, 2, 3, 5, 10, 30])])
            if m == 2: x += [['pctk', r.choice([500, 2000])], ['pctd', r.choice([3, 8, 20])]]
            if m == 3: x += [['sitemod', r.choice([3, 8, 20])], ['sitemean', r.choice([1, 2, 5])]]
            js['s%d' % i] = x
        return {'scenario': '%d threads%s' % (g.nt, ' ' + g.lock if g.lock else ''), 'jobs': js, 'params': {'n': g.n, 'm': g.m, 'nt': g.nt, 'objs': [[o['t'], o['init'], o['name']] for o in g.objs], 'ops': g.ops, 'fixed': g.fixed, 'finals': g.finals, 'checks': g.checks, 'dekker': g.dekker, 'align': g.align, 'tls': [[o['n'], TY[o['t']][2] // 8] for o in g.tls]}}
    def check(self, case, run):
        p = case['params']; nt = p['nt']; n = p['n']
        q = run('c')
        if q['status'] != 'exit': return 'compile-' + q['status'], 'the compiler: %s' % bad_end(q)
        if q['code']: return 'rejected', 'a valid program is rejected: %s' % tail(q['stdout'])
        for name in sorted((x for x in case['jobs'] if x != 'c'), key=lambda x: int(x[1:])):
            z = run(name)
            if z['status'] != 'exit' or z['code']: return 'program-' + z['status'], '%s: the program ended with %s %s %s' % (name, z['status'], z['code'], z['detail'][:300])
            d = z['stdout'].encode('latin-1')
            if len(d) != 8 * (nt * n + p['m']): return 'history', '%s: the program wrote %d bytes, not %d' % (name, len(d), 8 * (nt * n + p['m']))
            w = struct.unpack('<%dQ' % (nt * n + p['m']), d); H = [w[i * n:(i + 1) * n] for i in range(nt)]; G = w[nt * n:]
            adr = {}
            for T in range(nt):
                for k, kind, x in p['fixed'][T]:
                    if kind == 'val':
                        if H[T][k] != x: return 'value', '%s: thread %d recorded 0x%x in slot %d, expected 0x%x' % (name, T, H[T][k], k, x)
                    elif adr.setdefault((T, x), H[T][k]) != H[T][k]: return 'tls-address', '%s: thread-local variable %s of thread %d has two addresses' % (name, p['tls'][x][0], T)
            sp = sorted((a, a + p['tls'][x][1], T, p['tls'][x][0]) for (T, x), a in adr.items())
            for a, b in zip(sp, sp[1:]):
                if b[0] < a[1]: return 'tls-shared', '%s: %s of thread %d and %s of thread %d share memory at 0x%x' % (name, a[3], a[2], b[3], b[2], b[0])
            if p['dekker'] and not H[0][p['dekker'][0]] and not H[1][p['dekker'][1]]: return 'fence', '%s: both threads read the old value behind their fences' % name
            for k, x in p['checks']:
                if G[k] != x: return 'lock', '%s: the counter under the lock ended as %d, expected %d' % (name, G[k], x)
            for (k, size), o in zip(p['align'], p['objs']):
                if G[k] % size: return 'alignment', '%s: %s of %d bytes is at 0x%x' % (name, o[2], size, G[k])
            fin = [G[f[0]] if o[0] != 'i128' else G[f[0]] | G[f[1]] << 64 for f, o in zip(p['finals'], p['objs'])]
            fin = [norm(o[0], x) for x, o in zip(fin, p['objs'])]
            ths = [[(oi, op, [H[T][k] for k in sl]) for oi, op, sl in p['ops'][T]] for T in range(nt)]
            for i, o in enumerate(p['objs']):
                one = [[x for x in t if x[0] == i] for t in ths]
                e = explain({i: (0, o[0])}, one, (norm(o[0], o[1]),), (fin[i],), 60000)
                if e is None: run.probe('one object undecided'); continue
                if not e: return 'object', '%s: no order of the operations on %s (%s, initially 0x%x) explains what the threads saw and its last value 0x%x: %s' % (name, o[2], o[0], o[1], fin[i], describe(one))
                run.probe('orders of one object')
            if len(p['objs']) > 1:
                e = explain({i: (i, o[0]) for i, o in enumerate(p['objs'])}, ths, tuple(norm(o[0], o[1]) for o in p['objs']), tuple(fin), 60000)
                if e is None: run.probe('total order undecided')
                elif not e: return 'order', '%s: each object is fine alone, but no single order of all operations explains what the threads saw: %s' % (name, describe(ths))
                else: run.probe('total orders')
        return None

def describe(ths):
    return ' || '.join('; '.join('%s v%d%s%s' % (op['k'] + op.get('op', ''), oi, ' 0x%x' % op['v'] if 'v' in op else '', ' -> ' + ','.join('0x%x' % x for x in rec) if rec else '') for oi, op, rec in t) for t in ths)[:900]
