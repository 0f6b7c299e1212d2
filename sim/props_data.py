"""P20: initialised data, against a byte-exact model, wherever the image is loaded."""
import struct
from core import job, sched
from props import Prop, prop, tail, run_exe
import binfmt as B

INTS = [('signed char', 1, 1), ('unsigned char', 1, 0), ('short', 2, 1), ('unsigned short', 2, 0), ('int', 4, 1), ('unsigned', 4, 0), ('long long', 8, 1), ('unsigned long long', 8, 0)]

class T:
    """kind: int, flt, ptr, fn, arr, str(uct), uni"""
    def __init__(self, kind, size, align, **kw): self.kind, self.size, self.align = kind, size, align; self.__dict__.update(kw)
    def decl(self, x):
        k = self.kind
        if k == 'arr': return self.el.decl('%s[%s]' % (x, self.n if not self.open else ''))
        if k == 'ptr': return (self.to.decl('*' + x) if self.to else 'void *' + x)
        if k == 'fn': return 'unsigned (*%s)(unsigned)' % x
        return '%s %s' % (self.name, x)
def arr(el, n, open=False): return T('arr', el.size * n, el.align, el=el, n=n, open=open)
SC = [T('int', s, s, name=n, sg=g) for n, s, g in INTS]; CH = T('int', 1, 1, name='char', sg=1); FL = [T('flt', 4, 4, name='float'), T('flt', 8, 8, name='double')]; FN = T('fn', 8, 8)
def ptr(t): return T('ptr', 8, 8, to=t)

class F:
    def __init__(self, name, t, off, bit=None): self.name, self.t, self.off, self.bit = name, t, off, bit

class Data:
    def __init__(self, r, tier):
        self.r = r; self.nu = r.choice([1, 2, 2, 3, 4]); self.seg = [[] for _ in range(self.nu)]; self.structs = []; self.objs = []; self.k = 0; self.enums = []; self.strs = []
        for _ in range(r.choice([1, 2, 3, 4, 6])): self.struct()
        self.fns = []
        for i in range(r.choice([1, 2, 4])):
            u = r.randrange(self.nu); st = r.random() < .3; a, b = r.randrange(1, 99), r.getrandbits(20); self.fns.append(dict(n='f%d' % i, u=u, st=st, a=a, b=b)); self.seg[u].append('%sunsigned f%d(unsigned x){ return x * %du + %du; }' % ('static ' if st else '', i, a, b))
        for i in range(r.choice([0, 0, 1, 2])):         # functions of a library
            n = 'imp%d' % i; self.fns.append(dict(n=n, u=-1, st=False, a=1, b=B.stub_value('xx.dll', n, 7 if i else None))); (self.seg[r.randrange(self.nu)].append('%sunsigned %s(unsigned);' % (r.choice(['__declspec(dllimport) ', '__declspec(dllimport) ', 'extern ']), n)))
        for _ in range(r.choice([0, 1, 3])):
            v = r.choice([r.randrange(100), -r.randrange(1, 100), r.getrandbits(31)]); self.enums.append(('E%d' % len(self.enums), v)); self.seg[r.randrange(self.nu)].append('enum { E%d = %d };' % (len(self.enums) - 1, v))
        for i in range(r.choice([2, 4, 6, 10, 16] if tier == 'quick' else [4, 10, 20, 40])):
            t = r.choice([r.choice(SC), r.choice(FL)] + [self.type()] * 4)
            sto = r.choice(['', '', '', 'static', 'static', 'local', 'any', 'thread', 'tstatic']); c = r.random() < .25 and 'thread' not in sto and sto != 'any' and 'tstatic' != sto
            self.objs.append(dict(n='o%d' % i, t=t, u=r.randrange(self.nu), sto=sto, const=c, tls=sto in ('thread', 'tstatic')))
        for o in self.objs:
            o['subs'] = list(self.subs(o['n'], o['t'], 0)); o['al'] = 0
            if r.random() < .25: o['al'] = r.choice([1, 2, 4, 8, 16] + ([] if o['tls'] else [16, 32, 32, 64, 128, 256, 512, 1024, 4096]))
            if o['al'] < o['t'].align: o['al'] = 0       # whether a smaller alignment lowers that of the type is not claimed
        for o in list(self.objs): self.define(o)
        self.program()
    # ---- types
    def type(self, d=0):
        r = self.r; k = r.randrange(12)
        if k < 3 or (d > 2): return r.choice(SC)
        if k < 4: return r.choice(FL)
        if k < 6 and self.structs: return r.choice(self.structs)
        if k < 7: return FN
        if k < 8: return ptr(CH)
        if k < 10: return ptr(r.choice([None, None, r.choice(SC), r.choice(self.structs) if self.structs else None, ptr(None)]))
        el = self.type(d + 1)
        return arr(el, r.choice([1, 2, 3, 3, 4, 7, 40 if el.size <= 8 else 5]), False) if d else arr(el, r.choice([1, 2, 3, 5, 9, 300 if el.size <= 16 and r.random() < .3 else 4]), r.random() < .3)
    def struct(self):
        r = self.r; uni = r.random() < .2; pack = r.choice([16] * 6 + [1, 2, 4, 8]); n = 'D%d' % len(self.structs); F_ = []; o = 0; al = 1; size = 0; txt = []; i = 0; cnt = r.choice([1, 2, 3, 4, 6]); bt = None; bi = 0
        while i < cnt:
            if not uni and r.random() < .25:
                t = r.choice([x for x in SC if x.size >= 4] + [SC[1], SC[3]]); w = r.randrange(1, min(t.size * 8, 31) + 1)
                if bt is None or bt.size != t.size or bi + w > t.size * 8: a = min(t.align, pack); o = (o + a - 1) // a * a; al = max(al, a); bo = o; o += t.size; bi = 0; bt = t
                F_.append(F('m%d' % i, t, bo, (bi, w))); bi += w; txt.append('%s : %d;' % (t.decl('m%d' % i), w)); i += 1; continue
            bt = None; t = self.type(1); a = min(t.align, pack); al = max(al, a)
            if uni: F_.append(F('m%d' % i, t, 0)); size = max(size, t.size)
            else: o = (o + a - 1) // a * a; F_.append(F('m%d' % i, t, o)); o += t.size
            txt.append(t.decl('m%d' % i) + ';'); i += 1
        if not uni: size = o
        size = (size + al - 1) // al * al; kw = 'union' if uni else 'struct'
        s = T('uni' if uni else 'str', size, al, name='%s %s' % (kw, n), F=F_); self.structs.append(s); d = '%s %s { %s };' % (kw, n, ' '.join(txt))
        if pack != 16: d = '#pragma pack(push, %d)\n%s\n#pragma pack(pop)' % (pack, d)
        self.seg[r.randrange(self.nu)].append(d)
    def subs(self, e, t, off, d=0):
        yield e, t, off
        if d > 3: return
        if t.kind == 'arr':
            for i in sorted({0, t.n - 1, t.n // 2}): yield from self.subs('%s[%d]' % (e, i), t.el, off + i * t.el.size, d + 1)
        elif t.kind in ('str', 'uni'):
            for f in t.F:
                if f.bit is None: yield from self.subs('%s.%s' % (e, f.name), f.t, off + f.off, d + 1)
    # ---- initialisers: text, and what they do to the bytes
    def define(self, o):
        r = self.r; t = o['t']; o['mem'] = bytearray(t.size); o['rel'] = {}; o['chk'] = []
        if t.kind == 'arr' and t.open and r.random() < .15: t = o['t'] = arr(t.el, t.n)
        if r.random() < .15 and not (t.kind == 'arr' and t.open): init = ''
        elif r.random() < .05 and t.kind in ('arr', 'str', 'uni') and not (t.kind == 'arr' and t.open): init = ' = {0}'
        else: init = ' = ' + self.init(o, t, 0, True)
        c = 'const ' if o['const'] else ''; d = {'': '', 'static': 'static ', 'local': 'static ', 'any': '__declspec(selectany) ', 'thread': '__declspec(thread) ', 'tstatic': 'static __declspec(thread) '}[o['sto']]
        if o['const'] and t.kind in ('ptr', 'fn'): c = ''; o['const'] = False
        x = t.kind == 'arr' and t.el
        while x and x.kind == 'arr': x = x.el
        if o['const'] and x and x.kind in ('ptr', 'fn'): c = ''; o['const'] = False
        if o['al']: x = '_Alignas(%d) ' % o['al'] if o['al'] >= t.align and r.random() < .5 else '__declspec(align(%d)) ' % o['al']; d = r.choice([x + d, d + x])
        l = '%s%s%s%s;' % (d, c, t.decl(o['n']), init); u = o['u']; n = o['n']
        if o['sto'] == 'any' and not init: l = l[:-1] + (' = {0};' if t.kind in ('arr', 'str', 'uni') else ' = 0;')
        if o['sto'] == 'local': self.seg[u].append('void *%s_(void){ %s return (void *)&%s; }' % (n, l, n)); return
        self.seg[u].append(l)
        if o['sto'] == 'any' and self.nu > 1 and r.random() < .5: self.seg[r.choice([v for v in range(self.nu) if v != u])].append(l)
        for _ in range(r.choice([0] * 8 + [1, 1, 2]) if o['sto'] in ('', 'thread') else 0):
            y = r.choice([16] if o['tls'] else [16, 32, 64, 128]) if r.random() < .4 and t.align <= 16 else 0; o['al'] = max(o['al'], y)
            self.seg[r.randrange(self.nu)].append('%sextern %s%s%s;' % ('__declspec(align(%d)) ' % y if y else '', '__declspec(thread) ' if o['tls'] else '', c, T('arr', 0, 0, el=t.el, n=0, open=True).decl(n) if t.kind == 'arr' and r.random() < .5 and not t.open else t.decl(n)))
    def lit(self, t):
        """an integer constant of type t: text, value"""
        r = self.r; b = t.size * 8; k = r.randrange(9)
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if t.sg else (0, (1 << b) - 1)
        if k == 0 and self.enums:
            n, v = r.choice(self.enums)
            if lo <= v <= hi: return n, v
        if k == 1: c = r.randrange(33, 126); c = c if c not in (39, 92) else 65; return "'%c'" % c, c
        if k == 2: a, s = r.randrange(1, 60), r.randrange(0, min(b - 1, 30) - 5 if b > 8 else 1); v = a << s; return ('%d << %d' % (a, s) if v <= min(hi, 0x7fffffff) else '1'), (v if v <= min(hi, 0x7fffffff) else 1)
        if k == 3 and self.structs: s = r.choice(self.structs); return ('(%s)sizeof(%s)' % (t.name, s.name), s.size) if s.size <= hi else ('0', 0)
        if k == 4: v = r.randrange(0, min(hi, 1000)); return '%d - %d' % (v, v // 2), v - v // 2
        if k == 5: return '0', 0
        v = r.choice([r.randrange(lo, hi + 1), r.randrange(max(lo, -9), min(hi, 9) + 1), hi, lo])
        if t.size < 8: return (str(v) if v != -(1 << 31) else '(-2147483647 - 1)') + ('u' if not t.sg else ''), v
        return ('%dll' % v if v > -(1 << 63) else '(-9223372036854775807ll - 1)') if t.sg else '%dull' % v, v
    def place(self, o):
        """objects that an initialiser in the unit of o may refer to, as (expression, type, object, offset)"""
        return [(e, t, q, off) for q in self.objs if not q['tls'] and (q['sto'] in ('', 'any') or q['u'] == o['u'] and q['sto'] == 'static' and o['sto'] != 'any' or q is o and q['sto'] == 'local') for e, t, off in q['subs']]
    def addr(self, o, at, to):
        """a pointer constant of type to*: text; the relocation is recorded"""
        r = self.r; P = self.place(o); name = (to.decl('') if to else 'void ').rstrip()
        if not P: return '0'
        same = [p for p in P if to and p[1] is to]; k = r.randrange(8)
        if same and k < 4:
            e, t, q, off = r.choice(same); o['rel'][at] = ('o', q['n'], off)
            cq = '(%s *)' % name if q['const'] or r.random() < .1 else ''
            return cq + '&' + e
        ar = [p for p in P if p[1].kind == 'arr' and (not to or p[1].el is to)]
        if ar and k < 6:
            e, t, q, off = r.choice(ar); i = r.randrange(t.n + 1); o['rel'][at] = ('o', q['n'], off + i * t.el.size); cq = '(%s *)' % name if q['const'] else ''
            return cq + r.choice(['(%s + %d)', '&%s[%d]', '(%s + (%d))']) % (e, i) if i else cq + (e if not q['const'] else '(%s)' % e)
        e, t, q, off = r.choice(P); c = r.choice([0, 0, 1, 5, -3, 100]); o['rel'][at] = ('o', q['n'], off + c)
        b = '&%s' % e
        if c: b = '((char *)%s %s %d)' % (b, '+' if c > 0 else '-', abs(c))
        if not to and not q['const'] and r.random() < .5: return b
        return '(%s *)%s' % (name, b)
    def text(self):
        r = self.r; n = r.choice([0, 1, 2, 3, 5, 9, 30])
        if self.strs and r.random() < .3: return r.choice(self.strs)
        L = [x for x in self.strs if len(x) > 8]
        if L and r.random() < .15: x = r.choice(L); s = x[:-1] + r.choice('abcz'); self.strs.append(s); return s
        s = ''.join(r.choice('abcXYZ019 _,;{}/*') if r.random() < .95 else r.choice('\0\0\n\t\\"\x01') for _ in range(n)); self.strs.append(s)
        if r.random() < .2: self.strs += [s + r.choice(['\0', '\0\0', '\0x', 'q']), s[:-1]]    # strings that are beginnings of each other
        return s
    @staticmethod
    def q(s, pre=''): return pre + '"' + ''.join({'\0': '\\000', '\n': '\\n', '\t': '\\t', '\\': '\\\\', '"': '\\"', '\x01': '\\x01" "'}.get(c, c) for c in s).replace('" "', '" %s"' % pre) + '"'
    def literal(self, o, t, at):
        """a pointer to a compound literal of type t, an object of its own"""
        r = self.r; n = 'c%d' % len(self.objs); a = t if t.kind != 'arr' and r.random() < .6 else arr(t, r.choice([1, 2, 3, 5])); x = dict(n=n, t=a, u=o['u'], sto='lit', const=False, tls=False, al=0, of=(o['n'], at), mem=bytearray(a.size), rel={}, chk=[], subs=[])
        self.objs.append(x); o['rel'][at] = ('o', n, 0); self.depth += 1; i = self.init(x, a, 0, False); self.depth -= 1
        if i[0] != '{': i = '{ %s }' % i
        return '%s(%s)%s' % ('&' if a is t else '', a.decl('').rstrip(), i)
    depth = 0
    def init(self, o, t, at, top=False):
        r = self.r; m = o['mem']; self.k += 1
        if t.kind == 'int':
            if t.size == 8 and not top and r.random() < .2:
                x = self.addr(o, at, None)
                if at in o['rel']: return '(%s)%s' % (t.name, '(' + x + ')')
            x, v = self.lit(t); m[at:at + t.size] = (v & (1 << t.size * 8) - 1).to_bytes(t.size, 'little'); return r.choice(['%s', '%s', '(%s)', '{%s}' if top else '%s']) % x
        if t.kind == 'flt':
            v = r.choice([0.0, 1.0, -1.0, .5, 1.25, -1024.75, 3.0, 65536.5]); m[at:at + t.size] = struct.pack('<f' if t.size == 4 else '<d', v); return r.choice(['%r%s' % (v, r.choice(['', 'f']) if t.size == 4 else ''), '%d' % v if v == int(v) else '%r' % v])
        if t.kind == 'fn':
            c = [f for f in self.fns if not f['st'] or f['u'] == o['u'] and o['sto'] != 'any']
            if not c or r.random() < .15: return '0'
            f = r.choice(c); o['rel'][at] = ('f' if f['u'] >= 0 else 'i', f['n'], 0); o['chk'].append(('f', at, f)); return r.choice(['%s', '&%s', '(%s)']) % f['n']
        if t.kind == 'ptr':
            k = r.randrange(10)
            if k < 1: return r.choice(['0', '(void *)0', '{0}' if top else '0'])
            if k < 2: v = r.getrandbits(40); m[at:at + 8] = struct.pack('<Q', v); return '(void *)0x%xull' % v
            if t.to and t.to is CH and k < 8 or not t.to and k < 4:
                s = self.text(); j = r.choice([0, 0, r.randrange(len(s) + 1)]); o['rel'][at] = ('s', s, j); o['chk'].append(('s', at, (s[j:] + '\0').encode()))
                q = self.q(s) if len(s) < 2 or r.random() < .8 else '%s %s' % (self.q(s[:len(s) // 2]), self.q(s[len(s) // 2:]))
                if t.to and r.random() < .1 and len(s): return '(char *)(void *)%s' % q if not j else '%s + %d' % (q, j)
                return q if not j else r.choice(['%s + %d', '&%s[%d]', '(%s + %d)']) % (q, j)
            if t.to and t.to in (SC[3], SC[5]) and k < 6:
                s = self.text(); j = r.choice([0, 0, r.randrange(len(s) + 1)]); w = t.to.size; o['rel'][at] = ('s', s, j * w); o['chk'].append(('s', at, (s[j:] + '\0').encode('utf-16-le' if w == 2 else 'utf-32-le'))); q = self.q(s, r.choice('Lu') if w == 2 else 'U')
                return q if not j else r.choice(['%s + %d', '&%s[%d]']) % (q, j)
            if t.to and t.to.kind != 'fn' and o['sto'] in ('', 'static', 'lit') and self.depth < 3 and len(self.objs) < 60 and r.random() < .25 and t.to.size: return self.literal(o, t.to, at)
            return self.addr(o, at, t.to)
        if t.kind == 'arr':
            if t.el in (SC[3], SC[5]) and r.random() < .5:
                s = self.text()[:t.n if not t.open else 10 ** 6]
                if t.open: s = (s + 'q' * t.n)[:t.n - 1] if top else ''
                b = s.encode('utf-16-le' if t.el.size == 2 else 'utf-32-le'); m[at:at + len(b)] = b; return r.choice(['%s', '{%s}']) % self.q(s, r.choice('Lu') if t.el.size == 2 else 'U')
            if t.el is CH or t.el in SC[:2]:
                if r.random() < .6:
                    s = self.text()[:t.n if not t.open else 10 ** 6]
                    if t.open:
                        if top and t.n > 1: s = (s + 'q' * t.n)[:t.n - 1]
                        else: s = ''
                    m[at:at + len(s)] = s.encode(); return r.choice(['%s', '{%s}']) % self.q(s)
            n = t.n; c = n if t.open or r.random() < .5 else r.randrange(1, n + 1)
            if n > 50: c = n if r.random() < .2 else r.randrange(1, 20)
            if t.open and n > 50: return '{ [%d] = %s }' % (n - 1, self.init(o, t.el, at + (n - 1) * t.el.size))
            idx = list(range(c))
            if r.random() < .25:                                    # designated, in any order, with gaps
                idx = sorted(r.sample(range(n), c)); (r.shuffle(idx) if r.random() < .5 else None)
                if t.open and n - 1 not in idx: idx.append(n - 1)
                return '{ %s%s }' % (', '.join('[%d] = %s' % (i, self.init(o, t.el, at + i * t.el.size)) for i in idx), r.choice(['', ',']))
            return '{ %s%s }' % (', '.join(self.init(o, t.el, at + i * t.el.size) for i in idx), r.choice(['', '', ',']))
        if t.kind == 'uni':
            f = t.F[0] if r.random() < .5 else r.choice(t.F)
            x = self.field(o, f, at); return '{ %s%s }' % ('' if f is t.F[0] and r.random() < .6 else '.%s = ' % f.name, x)
        # a structure
        n = len(t.F); c = n if r.random() < .6 else r.randrange(1, n + 1)
        if r.random() < .3:
            fs = r.sample(t.F, c); L = []
            for f in fs:
                if f.bit is None and f.t.kind == 'arr' and f.t.el.kind in ('int', 'ptr') and r.random() < .3: i = r.randrange(f.t.n); L.append('.%s[%d] = %s' % (f.name, i, self.init(o, f.t.el, at + f.off + i * f.t.el.size))); continue
                if f.bit is None and f.t.kind == 'str' and f.t.F[0].bit is None and r.random() < .3: g = f.t.F[0]; L.append('.%s.%s = %s' % (f.name, g.name, self.init(o, g.t, at + f.off + g.off))); continue
                L.append('.%s = %s' % (f.name, self.field(o, f, at)))
            return '{ %s }' % ', '.join(L)
        return '{ %s%s }' % (', '.join(self.field(o, f, at) for f in t.F[:c]), r.choice(['', '', ',']))
    def field(self, o, f, at):
        if f.bit is None: return self.init(o, f.t, at + f.off)
        r = self.r; b, w = f.bit; v = r.getrandbits(w); x = v - (1 << w) if f.t.sg and v >> w - 1 & 1 and r.random() < .8 else v
        if r.random() < .1 and w < 20: x = x + (1 << w)              # what does not fit is cut off
        q = int.from_bytes(o['mem'][at + f.off:at + f.off + f.t.size], 'little'); q = q & ~((1 << w) - 1 << b) | v << b; o['mem'][at + f.off:at + f.off + f.t.size] = q.to_bytes(f.t.size, 'little'); return str(x)
    # ---- the program writes every object, and what its pointers lead to
    def program(self):
        r = self.r; ops = []; n = len(self.objs)
        for o in self.objs:
            u = o['u']; e = o['n']
            if o['sto'] == 'local': self.seg[u].append('void *%s_p(void){ return %s_(); }' % (e, e))
            elif o['sto'] == 'lit': self.seg[u].append('void *%s_p(void){ return *(void **)((char *)%s_p() + %d); }' % ((e,) + o['of']))
            else: self.seg[u].append('void *%s_p(void){ return (void *)&%s; }' % (e, e))
            self.seg[u].append('unsigned long long %s_z(void){ return %s; }' % (e, 'sizeof(%s)' % e if o['sto'] not in ('local', 'lit') else o['t'].size))
        self.fns = [f for f in self.fns if f['u'] >= 0]
        for f in self.fns: self.seg[f['u']].append('void *%s_p(void){ return (void *)%s; }' % (f['n'], f['n']))
        M = ['T[%d] = (unsigned long long)%s_p(); S[%d] = %s_z();' % (i, o['n'], i, o['n']) for i, o in enumerate(self.objs)] + ['T[%d] = (unsigned long long)%s_p();' % (n + i, f['n']) for i, f in enumerate(self.fns)]
        N = n + len(self.fns)
        head = '''__declspec(dllimport) int WriteFile(void *, void *, unsigned, unsigned *, void *);
__declspec(dllimport) void *GetStdHandle(unsigned);
unsigned long long T[%d], S[%d]; void *out;
void put(void *p, unsigned n){ unsigned w; WriteFile(out, p, n, &w, 0); }
''' % (N, n)
        W = ['put((void *)T[%d], (unsigned)S[%d]);' % (i, i) for i in range(n)]; self.chk = []
        for i, o in enumerate(self.objs):
            for c in o['chk']:
                if o['rel'].get(c[1], ('-',))[0] not in ('fi' if c[0] == 'f' else 's'): continue
                if c[0] == 's': W.append('put(*(void **)(T[%d] + %d), %d);' % (i, c[1], len(c[2]))); self.chk.append(['s', c[2].hex()])
                else: x = r.getrandbits(31); W.append('{ unsigned v = (*(unsigned (**)(unsigned))(T[%d] + %d))(%du); put(&v, 4); }' % (i, c[1], x)); self.chk.append(['f', (x * c[2]['a'] + c[2]['b']) & 0xffffffff])
        # then every object that may be written is written, and nothing else changes
        wr = [i for i, o in enumerate(self.objs) if not o['const']]; r.shuffle(wr)
        W2 = ['for(unsigned long long i = 0; i < S[%d]; i++) ((unsigned char *)T[%d])[i] = (unsigned char)(i * 7 + %d);' % (i, i, i + 1) for i in wr] + W[:n]
        self.body = head + 'int _start(void){\n    out = GetStdHandle((unsigned)-11);\n    %s\n    put(T, sizeof(T)); put(S, sizeof(S));\n    %s\n    return 0;\n}\n' % ('\n    '.join(M), '\n    '.join(W + W2))
        self.files = {'m.c': self.body, 'k.lib': B.implib('kernel32.dll', [(x, 0, False) for x in ('WriteFile', 'GetStdHandle')]), 'x.lib': B.implib('xx.dll', [('imp0', 0, False), ('imp1', 7, True)])}
        for u in range(self.nu): s = self.seg[u]; r.shuffle(s); self.files['u%d.c' % u] = '\n'.join(s) + '\n'
        self.units = ['m.c'] + ['u%d.c' % u for u in range(self.nu)]; r.shuffle(self.units)
        self.model = dict(objs=[dict(n=o['n'], size=o['t'].size, align=max(o['t'].align, o['al']), mem=o['mem'].hex(), rel=[[a, list(v)] for a, v in sorted(o['rel'].items())], const=o['const']) for o in self.objs], fns=[f['n'] for f in self.fns], chk=self.chk)

@prop
class P20(Prop):
    id = 'P20'
    cases = (2000, 25000)
    shrink_src = False
    drop_jobs = True
    rule = ('a case is a program of 1..4 units that define a graph of initialised objects (scalars, bit fields, structures, unions, arrays of known and unknown size, strings, functions; external, static, static local, selectany, thread local) pointing into each other, '
            'compiled by one thread and under 4 seeded schedules with 2..6 threads; every executable is loaded at its own or another base address and writes all its objects; two cases are the same if all their runs took the same interleavings')
    def pad(self, text, P):
        return ''.join(d % k + ';\n' for d, n, k in P) + text.replace('int _start(void){\n', 'int _start(void){\n' + ''.join('    if(!&%s[%d]) return 77;\n' % (n, k // 2) for d, n, k in P))
    def make(self, r, seed, tier):
        g = Data(r, tier); js = {}; place = r.choice([0, 1, 2, 9, 9]) if any(o['tls'] for o in g.objs) else 9
        for i in range(5):
            us = g.units[:]
            if r.random() < .5: r.shuffle(us)
            ex = r.choice(['', '', ' -nodebug', ' -seed %d' % r.randrange(1, 99), ' -nodynamicbase', ' -imagebase 0x%x' % (0x100000000 + (r.randrange(0x8000) << 20))])
            files = dict(g.files)
            if r.random() < .7:                                      # whatever else is in the image: moves everything behind it
                P = []
                if any(o['tls'] for o in g.objs) and r.random() < .6: P.append(('__declspec(thread) char tpad_[%d]', 'tpad_', r.choice([r.randrange(1, 4200), 8 * r.randrange(1, 520)])))
                if r.random() < .3: P.append(('const char rpad_[%d] = {1}', 'rpad_', r.randrange(1, 4200)))
                if r.random() < .3: P.append(('char dpad_[%d] = {1}', 'dpad_', r.randrange(1, 4200)))
                if r.random() < .3: P.append(('char zpad_[%d]', 'zpad_', r.randrange(1, 4200)))
                files['m.c'] = self.pad(files['m.c'], P)
            if i == place:                                           # the directory of the thread local storage at the end of a page
                z = files['m.c']; k = 8; t = '__declspec(thread) char tedge_[%d]'
                q = self.run(job(dict(files, **{'m.c': self.pad(z, [(t, 'tedge_', k)])}), 'hlc.exe %s -nostdlib -l k -l x -quiet%s -out a.exe -thread_count 1' % (' '.join(us), ex)))
                d = q['files'].get('c:/work/a.exe') if q['status'] == 'exit' and not q['code'] else None
                if d:
                    pe = struct.unpack_from('<I', d, 60)[0]; o = struct.unpack_from('<I', d, pe + 24 + 112 + 72)[0] if pe + 24 + 112 + 76 < len(d) else 0
                    if o: files['m.c'] = self.pad(z, [(t, 'tedge_', k + (r.choice([4056, 4064, 4072, 4072, 4080, 4080, 4088, 4088]) - o) % 4096)])
            js['s%d' % i if i else 'base'] = job(files, 'hlc.exe %s -nostdlib -l k -l x -quiet%s -out a.exe -thread_count %d' % (' '.join(us), ex, r.choice([2, 2, 3, 4, 6]) if i else 1), sched=sched(r) if i else None)
        return {'scenario': 'data', 'jobs': js, 'params': {'model': g.model}}
    def check(self, case, run):
        m = case['params']['model']
        for n in list(case['jobs']):
            q = run(n)
            if q['status'] != 'exit': continue
            if q['code']: return 'rejected', '%s: a valid program is rejected: %s' % (n, tail(q['stdout']))
            e = q['files'].get('c:/work/a.exe')
            if e is None: return 'no-output', '%s: exit code 0 but no executable' % n
            z = run_exe(run, e, impstub=1)
            if z['status'] != 'exit' or z['code']: return 'program-' + z['status'], '%s: the program ended with %s %s %s' % (n, z['status'], z['code'], z['detail'][:200])
            v = self.judge(m, z['stdout'].encode('latin-1'), run)
            if v: return v[0], '%s: %s' % (n, v[1])
        return None
    def judge(self, m, d, run):
        O = m['objs']; N = len(O) + len(m['fns']); need = 8 * N + 8 * len(O) + 2 * sum(o['size'] for o in O) + sum(len(c[1]) // 2 if c[0] == 's' else 4 for c in m['chk'])
        if len(d) < 8 * N + 8 * len(O): return 'program-output', 'the program wrote %d bytes' % len(d)
        adr = struct.unpack_from('<%dQ' % N, d); S = struct.unpack_from('<%dQ' % len(O), d, 8 * N); at = 8 * (N + len(O)); A = dict(zip([o['n'] for o in O] + m['fns'], adr))
        for o, s in zip(O, S):
            if s != o['size']: return 'size', '%s has %d bytes, declared with %d' % (o['n'], s, o['size'])
        if len(d) != need: return 'program-output', 'the program wrote %d bytes instead of %d' % (len(d), need)
        order = sorted((A[o['n']], o['size'], o['n']) for o in O)
        for (a, s, x), (b, _, y) in zip(order, order[1:]):
            if a + s > b: return 'overlap', '%s and %s overlap' % (x, y)
        first = []
        for o in O:
            if A[o['n']] % o['align']: return 'alignment', '%s is at 0x%x' % (o['n'], A[o['n']])
            want = bytearray(bytes.fromhex(o['mem'])); got = bytearray(d[at:at + o['size']]); at += o['size']; first.append(bytes(got))
            for p, (k, t, c) in o['rel']:
                v, = struct.unpack_from('<Q', got, p)
                if k in 'of' and v != (A[t] + c) & (1 << 64) - 1: return 'pointer', '%s+%d holds 0x%x; %s+%d is at 0x%x' % (o['n'], p, v, t, c, A[t] + c)
                if v == 0: return 'pointer', '%s+%d is null' % (o['n'], p)
                got[p:p + 8] = want[p:p + 8]; run.probe('pointers compared')
            if got != want:
                i = next(i for i in range(len(got)) if got[i] != want[i]); return 'bytes', '%s+%d holds %02x, its initialiser means %02x' % (o['n'], i, got[i], want[i])
            run.probe('bytes compared', len(got))
        for k, x in m['chk']:
            if k == 's':
                x = bytes.fromhex(x); s = d[at:at + len(x)]; at += len(x)
                if s != x: return 'string', 'a pointer to %r leads to %r' % (x, s)
            else:
                v, = struct.unpack_from('<I', d, at); at += 4
                if v != x: return 'function', 'a call through a pointer gave %d instead of %d' % (v, x)
            run.probe('targets followed')
        for i, o in enumerate(O):
            got = d[at:at + o['size']]; at += o['size']; want = first[i] if o['const'] else bytes((j * 7 + i + 1) & 255 for j in range(o['size']))
            if got != want: return 'written', 'after writing all objects, %s does not hold what was written' % o['n']
        run.probe('programs'); return None
