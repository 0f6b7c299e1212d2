"""P22: exceptions. Produced programs are stepped instruction by instruction; the unwind information is checked at each of them, and exceptions are
raised at chosen instructions. A model of the program says which filters are asked, which handler runs, and what the program computes."""
import os, random, shutil, struct, tempfile
import binfmt as B
from core import job, sched, get
from gen import Gen
from props import Prop, prop, incs, run_exe, tail, bad_end
from props_link import LINK, call, tlsobj

SIZES = (12, 20, 24, 28, 32, 36, 40, 48, 64, 100)
AV, DIV, BP = 0xc0000005, 0xc0000094, 0x80000003
class Unwind(Exception): pass
class Unhandled(Exception): pass
class Leave(Exception): pass        # break, continue, goto, return
class TooLong(Exception): pass

class Prog:
    def __init__(self, r, tier):
        self.r = r; self.fresh = 0; self.resume = r.random() < .35; self.nu = r.choice([1, 1, 2, 3]); self.codes = [0xe0000000 | r.getrandbits(12) for _ in range(3)]
        self.ng = r.choice([1, 2, 4]); self.ginit = [r.randrange(100) for _ in range(self.ng)]; self.fns = []; self.huge = r.random() < .06
        for i in range(r.choice([1, 2, 3, 3, 4, 5])): self.fns.append(self.signature(i))
        for f in self.fns: f['body'] = self.block(f, 0, r.choice([2, 3, 4]))
        m = self.fns[0]
        if r.random() < .85: m['body'] = [('try', self.id(), m['body'], ('fn', self.id(), self.expr(m), ('c', 1), 2), [('mark', self.id(), self.expr(m))])] + [('mark', self.id(), self.expr(m))]
    def id(self): self.fresh += 1; return self.fresh
    # ---- declarations
    def signature(self, i):
        r = self.r; f = {'i': i, 'name': '_start' if i == 0 else 'f%d' % i, 'params': [], 'vars': [], 'unit': r.randrange(self.nu), 'ret': 'int' if i == 0 else r.choice(['int', 'int', 'int', 'ret', 'double', 'pair']), 'static': i > 0 and r.random() < .2, 'tiny': r.random() < .2, 'rec': i > 0 and r.random() < .2, 'n': 0}
        if f['rec']: f['params'].append(('int', 'depth', 'depth'))
        if i:
            for k in range(r.choice([0, 1, 1, 2, 3, 4, 5, 7]) if not f['tiny'] else r.choice([0, 0, 1])):
                t = 'int' if f['tiny'] else r.choice(['int', 'int', 'int', 'long long', 'double', 'big', 'pair', 'char']); n = 'p%d' % k; f['params'].append((t, n, {'big': n + '.v[2]', 'pair': n + '.b'}.get(t, n)))
        for t, n, l in f['params']: f['vars'].append((n, t, l, None))
        if f['tiny'] and f['ret'] not in ('int', 'double'): f['ret'] = 'int'
        if f['tiny']: f['n'] = 22
        for k in range(r.choice([1, 2, 2, 3, 4]) if not f['tiny'] else r.choice([0, 1, 1]) if f['params'] else 1):
            n = 'x%d' % k; t = 'int' if f['tiny'] else r.choice(['int', 'int', 'int', 'long long', 'double', 'char', 'arr', 'pair', 'big', 'buf', 'al']); v = r.randrange(100)
            if t == 'arr': j = r.randrange(6); f['vars'].append((n, t, '%s[%d]' % (n, j), ('int %s[6];' % n, v)))
            elif t == 'buf': z = r.choice([100, 127, 300, 4090, 5000, 20000]); z, self.huge = (r.randrange(524000, 640000), False) if self.huge and not f['rec'] else (z, self.huge); f['vars'].append((n, t, '%s[%d]' % (n, r.choice([0, z - 1])), ('char %s[%d];' % (n, z), v)))
            elif t == 'al': f['vars'].append((n, 'arr', '%s[%d]' % (n, r.randrange(8)), ('int *%s = (int *)_alloca(%d);' % (n, r.choice([32, 33, 200, 4000, 6000])), v)))
            elif t == 'pair': f['vars'].append((n, t, n + '.' + r.choice('ab'), ('struct pair %s;' % n, v)))
            elif t == 'big': f['vars'].append((n, t, '%s.v[%d]' % (n, r.randrange(6)), ('struct big %s;' % n, v)))
            else: f['vars'].append((n, t, n, ('%s %s;' % (t, n), v)))
        return f
    def var(self, f, w=False):
        vs = [x for x in f['vars'] if not (w and x[0] in ('depth',))]
        return self.r.choice(vs)[0] if vs else None
    def expr(self, f, d=0):
        r = self.r; p = r.random()
        if p < .2 or d > 2: return ('c', r.randrange(200))
        if p < .55: return ('v', self.var(f))
        if p < .68: return ('g', r.randrange(self.ng))
        if p < .92: return (r.choice(['+', '+', '^', '&']), self.expr(f, d + 1), self.expr(f, d + 1))
        return ('?', self.cond(f, d + 1), self.expr(f, d + 1), self.expr(f, d + 1))
    def cond(self, f, d=0):
        r = self.r; p = r.random(); a = self.expr(f, d + 1)
        if p < .3: return ('odd', a)
        if p < .6: return ('<', a, self.expr(f, d + 1))
        if p < .7: return ('==', a, a if r.random() < .5 else self.expr(f, d + 1))
        if p < .8: return ('&&', self.cond(f, d + 1), self.cond(f, d + 1)) if d < 2 else ('odd', a)
        if p < .9: return ('||', self.cond(f, d + 1), self.cond(f, d + 1)) if d < 2 else ('odd', a)
        return ('true',)
    # ---- statements
    def block(self, f, d, n, loop=False, lab=()):
        r = self.r; out = []
        for _ in range(max(1, n)):
            out.append(self.stmt(f, d, loop, lab))
            if out[-1][0] in ('break', 'continue', 'goto', 'ret', 'raise'): break
        return out
    def maybe(self, f, s): return ('if', self.cond(f), [s], None) if self.r.random() < .6 else s
    def stmt(self, f, d, loop, lab):
        r = self.r; f['n'] += 1
        while True:
            k = r.choice(['mark', 'mark', 'set', 'set', 'gset', 'if', 'loop', 'call', 'call', 'call', 'try', 'try', 'try', 'try', 'raise', 'raise', 'ret', 'break', 'continue', 'goto', 'block', 'switch'])
            if f['n'] > 26 and k in ('if', 'loop', 'try', 'block', 'switch'): continue
            if d > 4 and k in ('if', 'loop', 'try', 'block', 'switch'): continue
            if k == 'mark': return ('mark', self.id(), self.expr(f))
            if k == 'set':
                v = self.var(f, True)
                if v: return ('set', v, self.expr(f))
            if k == 'gset': return ('gset', r.randrange(self.ng), self.expr(f))
            if k == 'if': return ('if', self.cond(f), self.block(f, d + 1, r.choice([1, 2]), loop, lab), self.block(f, d + 1, r.choice([1, 2]), loop, lab) if r.random() < .4 else None)
            if k == 'loop': i = 'i%d' % self.id(); return ('loop', i, r.choice([1, 2, 3]), self.block(f, d + 1, r.choice([1, 2, 3]), True, lab))
            if k == 'block': l = 'L%d' % self.id(); return ('block', l, self.block(f, d + 1, r.choice([1, 2, 3]), loop, lab + (l,)))
            if k == 'switch': return ('switch', self.expr(f), r.choice([2, 3]), [self.block(f, d + 1, 1, False, lab) for _ in range(3)])
            if k == 'call':
                js = [j for j in range(f['i'] + 1, len(self.fns))]
                if f['rec'] and r.random() < .5: js = [f['i']]
                if not js: continue
                j = r.choice(js); g = self.fns[j]; v = self.var(f, True)
                if v is None: continue
                c = ('call', v, j, [('c', r.choice([0, 1, 2, 3])) if p[1] == 'depth' and j != f['i'] else ('dec',) if p[1] == 'depth' else self.expr(f) for p in g['params']], r.random() < .2)
                return ('if', ('pos',), [c], None) if j == f['i'] else c
            if k == 'try': return ('try', self.id(), self.block(f, d + 1, r.choice([1, 2, 3]), loop, lab), self.filter(f), self.block(f, d + 1, r.choice([1, 1, 2]), loop, lab))
            if k == 'raise':
                if self.resume: s = ('raise', 'api', r.choice(self.codes), int(r.random() < .1))
                else: s = ('raise', r.choice(['write', 'write', 'read', 'div', 'api', 'api', 'bp']), r.choice(self.codes), 0)
                return self.maybe(f, s)
            if k == 'ret': return self.maybe(f, ('ret', self.expr(f)))
            if k == 'break' and loop: return self.maybe(f, ('break',))
            if k == 'continue' and loop: return self.maybe(f, ('continue',))
            if k == 'goto' and lab: return self.maybe(f, ('goto', r.choice(lab)))
    def filter(self, f):
        r = self.r; k = r.choice(['const', 'const', 'code', 'fn', 'flt'] if f['tiny'] else ['const', 'const', 'code', 'fn', 'fn', 'fn', 'cond', 'side', 'info', 'big', 'flt', 'tmp', 'tmp'])
        if k == 'const': return ('const', r.choice([1, 1, 0] + [-1] * self.resume))
        if k == 'code': return ('code', r.choice(['==', '!=']), r.choice(self.codes + [AV, DIV]))
        if k == 'cond': return ('cond', self.cond(f))
        if k == 'side':
            v = self.var(f, True)
            return ('side', v, self.expr(f), r.choice([1, 1, 0])) if v else ('const', 1)
        if k == 'flt': return ('flt', self.expr(f))
        if k == 'tmp': return ('tmp', [(r.choice([12, 20, 24, 28, 32, 36, 40, 48, 64, 100]), self.expr(f)) for _ in range(r.choice([1, 2, 2, 3, 4]))], (self.id(), self.expr(f), r.choice([1, 1, 0]), r.choice([2, 3, 6])) if r.random() < .6 else None)
        p = r.random()
        e = ('c', 1) if p < .4 else ('c', 0) if p < .6 else ('?', self.cond(f), ('c', 1), ('c', 0))
        if self.resume and r.random() < .5: e = ('c', -1)
        return (k, self.id(), self.expr(f), e, r.choice([2, 3, 6]))
    # ---- C
    def lv(self, f, n): return next(l for m, t, l, _ in f['vars'] if m == n)
    def ty(self, f, n): return next(t for m, t, l, _ in f['vars'] if m == n)
    def ce(self, f, e):
        k = e[0]
        if k == 'c': return '%d' % e[1] if e[1] >= 0 else '(%d)' % e[1]
        if k == 'v':
            l = self.lv(f, e[1]); return l if self.ty(f, e[1]) == 'int' else '(int)' + l
        if k == 'g': return 'g%d' % e[1]
        if k == 'dec': return 'depth - 1'
        if k == '?': return '(%s ? %s : %s)' % (self.cc(f, e[1]), self.ce(f, e[2]), self.ce(f, e[3]))
        return '(%s %s %s)' % (self.ce(f, e[1]), k, self.ce(f, e[2]))
    def cc(self, f, c):
        k = c[0]
        if k == 'true': return '1'
        if k == 'pos': return 'depth > 0'
        if k == 'odd': return '(%s & 1) == 1' % self.ce(f, c[1])
        if k in ('&&', '||'): return '(%s %s %s)' % (self.cc(f, c[1]), k, self.cc(f, c[2]))
        return '(%s %s %s)' % (self.ce(f, c[1]), k, self.ce(f, c[2]))
    def store(self, f, n, s):
        t = self.ty(f, n); m = 127 if t in ('char', 'buf') else 1023
        return '%s = %s(%s & %d)' % (self.lv(f, n), {'char': '(char)', 'buf': '(char)', 'long long': '(long long)', 'double': '(double)'}.get(t, ''), s, m)
    def cf(self, f, x):
        k = x[0]
        if k == 'const': return str(x[1])
        if k == 'code': return '_exception_code() %s 0x%x' % (x[1], x[2])
        if k == 'cond': c = self.cc(f, x[1]); return c if c != '1' else '1 == 1'
        if k == 'side': return '(%s, %d)' % (self.store(f, x[1], self.ce(f, x[2])), x[3])
        if k == 'flt': return '(double)%s * 0.5 < 40.25' % self.ce(f, x[1])
        if k == 'tmp':
            t = '(%s) %% 3 != 0' % ' + '.join('mks%d(%s).v[%d]' % (n, self.ce(f, e), n // 4 - 1) for n, e in x[1])
            return t if not x[2] else '(%s) & filt%d(%d, _exception_code(), %s%s, %d)' % (t, x[2][3], x[2][0], self.ce(f, x[2][1]), {2: '', 3: ', 1.5', 6: ', 1, 2, 3.5, 4'}[x[2][3]], x[2][2])
        if k == 'big': return 'mkbig(%d, %s).v[2] + mkbig(0, %s).v[3]' % (x[1], self.ce(f, x[2]), self.ce(f, x[3]))
        a = '_exception_code()' if k == 'fn' else '_exception_info()'
        return '%s%d(%d, %s, %s%s, %s)' % ('filt' if k == 'fn' else 'info', x[4], x[1], a, self.ce(f, x[2]), {2: '', 3: ', 1.5', 6: ', 1, 2, 3.5, 4'}[x[4]], self.ce(f, x[3]))
    def cs(self, f, b, o, ind):
        for s in b:
            k = s[0]; w = lambda x: o.append('    ' * ind + x)
            if k == 'mark': w('mark(%d, %s);' % (s[1], self.ce(f, s[2])))
            elif k == 'set': w(self.store(f, s[1], self.ce(f, s[2])) + ';')
            elif k == 'gset': w('g%d = %s & 1023;' % (s[1], self.ce(f, s[2])))
            elif k == 'if':
                w('if(%s){' % self.cc(f, s[1])); self.cs(f, s[2], o, ind + 1)
                if s[3] is not None: w('}else{'); self.cs(f, s[3], o, ind + 1)
                w('}')
            elif k == 'loop': w('for(int %s = 0; %s < %d; %s++){' % (s[1], s[1], s[2], s[1])); self.cs(f, s[3], o, ind + 1); w('}')
            elif k == 'block': w('{'); self.cs(f, s[2], o, ind + 1); w('}'); w('%s: ;' % s[1])
            elif k == 'switch':
                w('switch(%s %% %d){' % (self.ce(f, s[1]), s[2]))
                for i, b2 in enumerate(s[3]): w('default: {' if i == len(s[3]) - 1 else 'case %d: {' % i); self.cs(f, b2, o, ind + 1); w('}break;')
                w('}')
            elif k == 'call':
                g = self.fns[s[2]]; av = []
                for p, a in zip(g['params'], s[3]):
                    c = self.ce(f, a); av.append({'big': 'mkbig(0, %s)', 'pair': 'mkpair(%s)', 'char': '(char)(%s & 127)', 'double': '(double)(%s & 1023)', 'long long': '(long long)(%s & 1023)'}.get(p[0], '%s & 1023') % c if p[1] != 'depth' else c)
                c = '%s(%s)' % ('(*fp_%s)' % g['name'] if s[4] or g['static'] and g['unit'] != f['unit'] else g['name'], ', '.join(av)); w(self.store(f, s[1], {'ret': c + '.v[1]', 'pair': c + '.b', 'double': '(int)' + c}.get(g['ret'], c)) + ';')
            elif k == 'try':
                w('__try{'); self.cs(f, s[2], o, ind + 1); w('}__except(%s){' % self.cf(f, s[3])); self.cs(f, s[4], o, ind + 1); w('}')
            elif k == 'raise': w({'write': '*nowhere = 1;', 'read': 'g0 = *nowhere;', 'div': 'g0 = 7 / nothing;', 'bp': '__debugbreak();', 'api': 'RaiseException(0x%x, %d, 0, 0);' % (s[2], s[3])}[s[1]])
            elif k == 'ret': w({'ret': 'return mkret(%s & 1023);', 'pair': 'return mkpair(%s);', 'double': 'return (double)(%s & 1023);'}.get(f['ret'], 'return %s & 1023;') % self.ce(f, s[1]))
            elif k in ('break', 'continue'): w(k + ';')
            elif k == 'goto': w('goto %s;' % s[1])
    def proto(self, f): return '%s%s %s(%s)' % ('static ' if f['static'] else '', {'ret': 'struct ret', 'pair': 'struct pair'}.get(f['ret'], f['ret']), f['name'], ', '.join('%s %s' % ({'big': 'struct big', 'pair': 'struct pair'}.get(t, t), n) for t, n, l in f['params']) or 'void')
    def texts(self):
        r = self.r
        h = ['__declspec(dllimport) int WriteFile(void *file, const void *data, unsigned size, unsigned *out, void *overlapped);', '__declspec(dllimport) void *GetStdHandle(unsigned which);', '__declspec(dllimport) void RaiseException(unsigned code, unsigned flags, unsigned count, unsigned long long *arguments);',
             'struct big { int v[6]; };', 'struct pair { int a, b; };', 'struct ret { int v[5]; };', 'struct exc_record { unsigned code, flags; struct exc_record *next; void *address; unsigned count; unsigned long long info[15]; };', 'struct exc_pointers { struct exc_record *record; void *context; };',
             'void mark(int id, int value);', 'struct big mkbig(int id, int v);', 'struct pair mkpair(int v);', 'struct ret mkret(int v);', 'extern int *nowhere, nothing;']
        for z in SIZES: h.append('struct s%d { int v[%d]; }; struct s%d mks%d(int v);' % (z, z // 4, z, z))
        for n, x in (('filt', 'unsigned code'), ('info', 'void *info')):
            for k, e in ((2, ''), (3, ', double d'), (6, ', int a, int b, double d, char e')): h.append('int %s%d(int id, %s, int v%s, int result);' % (n, k, x, e))
        h += ['extern int g%d;' % i for i in range(self.ng)] + [self.proto(f) + ';' for f in self.fns if not f['static']] + ['extern %s;' % self.proto(dict(f, static=False)).replace(' %s(' % f['name'], ' (*fp_%s)(' % f['name'], 1) for f in self.fns[1:]]
        us = [[] for _ in range(self.nu)]; put = lambda s: us[r.randrange(self.nu)].append(s)
        put('void mark(int id, int value){ int rec[2]; rec[0] = id; rec[1] = value; unsigned n; WriteFile(GetStdHandle(-11), rec, 8, &n, 0); }')
        put('struct big mkbig(int id, int v){ struct big b; if(id) mark(id, v); b.v[0] = 3; b.v[1] = 1; b.v[2] = id ? 0 : v & 1023; b.v[3] = v; b.v[4] = b.v[5] = 77; return b; }')
        put('struct pair mkpair(int v){ struct pair p; p.a = 5; p.b = v & 1023; return p; }'); put('struct ret mkret(int v){ struct ret x; x.v[0] = 4; x.v[1] = v; x.v[2] = x.v[3] = x.v[4] = 6; return x; }')
        for z in SIZES: put('struct s%d mks%d(int v){ struct s%d x; for(int i = 0; i < %d; i++) x.v[i] = i; x.v[%d] = v & 1023; return x; }' % (z, z, z, z // 4, z // 4 - 1))
        put('int *nowhere;'); put('int nothing;')
        for k, e in ((2, ''), (3, ', double d'), (6, ', int a, int b, double d, char e')):
            ok = {2: '', 3: 'if(d != 1.5) mark(-1, 3); ', 6: 'if(a != 1 || b != 2 || d != 3.5 || e != 4) mark(-1, 6); '}[k]
            put('int filt%d(int id, unsigned code, int v%s, int result){ %smark(id, (int)code); mark(id, v); return result; }' % (k, e, ok))
            put('int info%d(int id, void *info, int v%s, int result){ %smark(id, (int)((struct exc_pointers *)info)->record->code); mark(id, v); return result; }' % (k, e, ok))
        for i in range(self.ng): put('int g%d = %d;' % (i, self.ginit[i]))
        for f in self.fns[1:]: us[f['unit']].append('%s = %s;' % (self.proto(dict(f, static=False)).replace(' %s(' % f['name'], ' (*fp_%s)(' % f['name'], 1), f['name']))
        for f in self.fns:
            o = ['%s{' % self.proto(f)]
            for n, t, l, d in f['vars']:
                if d: o.append('    %s %s;' % (d[0], self.store(f, n, str(d[1]))))
            self.cs(f, f['body'], o, 1); o.append('    ' + {'ret': 'return mkret(3);', 'pair': 'return mkpair(3);', 'double': 'return 3.0;'}.get(f['ret'], 'return 3;')); o.append('}')
            us[f['unit']].append('\n'.join(o))
        for u in us: r.shuffle(u)
        return {'h.h': '#pragma once\n' + '\n'.join(h) + '\n', **{'u%d.c' % i: '#include "h.h"\n' + '\n'.join(u) + '\n' for i, u in enumerate(us)}}

class Model:
    """runs the program; `inj` maps a position (the number of a step) to the code of an exception raised there"""
    def __init__(self, p, inj=()): self.p = p; self.inj = dict(inj); self.n = 0; self.at = []; self.out = []; self.g = list(p.ginit); self.stack = []
    def tick(self):
        self.n += 1; self.at.append(len(self.out))
        if self.n > 6000: raise TooLong
        if self.n in self.inj: self.dispatch(self.inj[self.n], 0)
    def dispatch(self, code, noncont):
        for k in range(len(self.stack) - 1, -1, -1):
            inst, x, f, env = self.stack[k]; depth = len(self.stack)
            r = self.filter(x, f, env, code); del self.stack[depth:]
            if r < 0:
                if noncont: raise Unhandled(0xc0000025)
                return
            if r > 0: raise Unwind(inst)
        raise Unhandled(code)
    def mark(self, i, v): self.tick(); self.out.append((i, v)); self.tick()
    def filter(self, x, f, env, code):
        k = x[0]; self.tick(); s = lambda c: c - (1 << 32) if c >> 31 else c
        if k == 'const': return x[1]
        if k == 'code': return int((code == x[2]) == (x[1] == '=='))
        if k == 'cond': return int(self.c(env, x[1]))
        if k == 'side': self.set(f, env, x[1], self.e(env, x[2])); self.tick(); return x[3]
        if k == 'flt': return int(self.e(env, x[1]) * .5 < 40.25)
        if k == 'tmp':
            t = int(sum(self.e(env, e) & 1023 for _, e in x[1]) % 3 != 0)
            if not x[2]: return t
            v = self.e(env, x[2][1]); self.mark(x[2][0], s(code)); self.mark(x[2][0], v); return t & x[2][2]
        if k == 'big': self.mark(x[1], self.e(env, x[2])); return self.e(env, x[3])       # the order of the two operands is settled: only one of them marks
        v = self.e(env, x[2]); r = self.e(env, x[3]); self.mark(x[1], s(code)); self.mark(x[1], v); return r
    def e(self, env, e):
        k = e[0]
        if k == 'c': return e[1]
        if k == 'v': return env[e[1]]
        if k == 'g': return self.g[e[1]]
        if k == 'dec': return env['depth'] - 1
        if k == '?': return self.e(env, e[2] if self.c(env, e[1]) else e[3])
        a = self.e(env, e[1]); b = self.e(env, e[2]); return a + b if k == '+' else a ^ b if k == '^' else a & b
    def c(self, env, c):
        k = c[0]
        if k == 'true': return True
        if k == 'pos': return env['depth'] > 0
        if k == 'odd': return self.e(env, c[1]) & 1 == 1
        if k == '&&': return self.c(env, c[1]) and self.c(env, c[2])
        if k == '||': return self.c(env, c[1]) or self.c(env, c[2])
        a = self.e(env, c[1]); b = self.e(env, c[2]); return a < b if k == '<' else a == b
    def set(self, f, env, n, v): env[n] = v & (127 if self.p.ty(f, n) in ('char', 'buf') else 1023)
    def call(self, f, args):
        env = {}; depth = len(self.stack)
        for (t, n, l), a in zip(f['params'], args): env[n] = a if n == 'depth' else a & (127 if t == 'char' else 1023)
        self.tick()
        for n, t, l, d in f['vars']:
            if d: env[n] = d[1]
        try: self.run(f, env, f['body'])
        except Leave as x:
            if x.args[0] != 'ret': raise
            return x.args[1]
        return 3
    def run(self, f, env, b):
        for s in b:
            k = s[0]; self.tick()
            if k == 'mark': self.mark(s[1], self.e(env, s[2]))
            elif k == 'set': self.set(f, env, s[1], self.e(env, s[2]))
            elif k == 'gset': self.g[s[1]] = self.e(env, s[2]) & 1023
            elif k == 'if':
                if self.c(env, s[1]): self.run(f, env, s[2])
                elif s[3] is not None: self.run(f, env, s[3])
            elif k == 'loop':
                for _ in range(s[2]):
                    self.tick()
                    try: self.run(f, env, s[3])
                    except Leave as x:
                        if x.args[0] == 'break': break
                        if x.args[0] != 'continue': raise
            elif k == 'block':
                try: self.run(f, env, s[2])
                except Leave as x:
                    if x.args != ('goto', s[1]): raise
            elif k == 'switch':
                v = self.e(env, s[1]) % s[2]
                try: self.run(f, env, s[3][v if v < len(s[3]) - 1 else -1])
                except Leave as x:
                    if x.args[0] != 'break': raise
            elif k == 'call':
                v = self.call(self.p.fns[s[2]], [self.e(env, a) for a in s[3]]); self.tick(); self.set(f, env, s[1], v)
            elif k == 'try':
                inst = object(); at = len(self.stack); self.stack.append((inst, s[3], f, env)); caught = False
                try: self.tick(); self.run(f, env, s[2]); self.tick()
                except Unwind as x:
                    if x.args[0] is not inst: raise
                    caught = True
                finally: del self.stack[at:]
                if caught: self.tick(); self.run(f, env, s[4])
            elif k == 'raise':
                self.dispatch({'write': AV, 'read': AV, 'div': DIV, 'bp': BP}.get(s[1], s[2]), s[3])
            elif k == 'ret':
                v = self.e(env, s[1]) & 1023; raise Leave('ret', v)
            elif k in ('break', 'continue'): raise Leave(k)
            elif k == 'goto': raise Leave('goto', s[1])
            self.tick()
    def go(self):
        try: v = self.call(self.p.fns[0], []); self.tick(); self.end = ('exit', v)
        except Unhandled as x: self.end = ('unhandled', x.args[0])
        return self

def dump(out): return [list(x) for x in out]

@prop
class P22(Prop):
    id = 'P22'
    cases = (700, 7000)
    rule = ('a case is a generated program of 1..5 functions in 1..3 units with nested __try/__except statements, compiled by one thread and under 2 seeded schedules; each executable is stepped instruction by instruction without and with exceptions '
            'that are injected at seeded instructions; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        while True:
            s = r.getrandbits(60); p = Prog(random.Random(s), tier)
            try: m = Model(p).go()
            except TooLong: continue
            if 25 <= m.n <= 1500 and len(m.out) < 400: break
        t = {**p.texts(), 'k.lib': B.implib('kernel32.dll', [(x, 0, False) for x in ('WriteFile', 'GetStdHandle', 'RaiseException')])}; files = [x for x in t if x.endswith('.c')]; r.shuffle(files)
        cmd = 'hlc.exe %s -nostdlib -l k -out a.exe -quiet%s -thread_count %%d' % (' '.join(files), r.choice(['', '', ' -nodebug']))
        js = {}; obj = r.random() < .3; parts = []
        if obj:             # the same as object files, linked by lld-link
            k = r.randint(1, len(files)); cut = sorted(r.sample(range(1, len(files)), k - 1)); parts = [files[a:b] for a, b in zip([0] + cut, cut + [len(files)])]
        dbg = r.choice(['', '', ' -nodebug'])
        for j, v in enumerate(['base', 's0', 's1']):
            tc = r.choice([2, 2, 3, 4]) if j else 1
            if not obj: js[v] = job(t, cmd % tc, sched=sched(r) if j else None)
            for i, fs in enumerate(parts): js[v + 'p%d' % i * (i > 0)] = job(t, 'hlc.exe -obj %s -nostdlib -quiet -out a.obj%s -thread_count %d' % (' '.join(fs), dbg, tc), sched=sched(r) if j else None)
        inj = []
        for _ in range(10):
            k = r.choice([1, 1, 1, 2]); inj.append(sorted([r.random(), r.choice(p.codes + [AV])] for _ in range(k)))
        return {'scenario': ('objects, ' if obj else '') + ('resumable' if p.resume else 'plain'), 'jobs': js, 'params': {'prog': s, 'tier': tier, 'inj': inj, 'obj': obj}}
    def check(self, case, run):
        pr = case['params']; p = Prog(random.Random(pr['prog']), pr['tier']); m0 = Model(p).go(); seen = {}
        for n in case['jobs']:
            if 'p' in n: continue
            data = []
            for k in case['jobs']:
                if k.split('p')[0] != n: continue
                q = run(k)
                if q['status'] != 'exit': return q['status'], '%s: %s' % (k, bad_end(q))
                if q['code']: return 'rejected', '%s: a valid program was rejected: %s' % (k, tail(q['stdout']))
                data.append(q['files'].get('c:/work/a.obj' if pr['obj'] else 'c:/work/a.exe'))
                if data[-1] is None: return 'no-output', '%s: exit code 0 but nothing was written' % k
            if pr['obj']:
                v = self.link(data, run)
                if isinstance(v, tuple): return v[0], '%s: %s' % (n, v[1])
                data = [v]
            data = data[0]
            z = run_exe(run, data, seh=1)
            v = self.judge(m0, z, n, 'without injected exceptions')
            if v: return v
            total = z['stats']['stepped']; run.probe('unhandled' if m0.end[0] != 'exit' else 'ended')
            for k, plan in enumerate(pr['inj'] if n == 'base' else pr['inj'][:3]):
                at = sorted({1 + int(x * total): c for x, c in plan}.items())
                z = run_exe(run, data, seh=1, inject=''.join('%d %x\n' % x for x in at))
                if z['status'] == 'unwind': return 'unwind', '%s, exceptions at instructions %s: %s' % (n, at, z['detail'])
                log = [l.split() for l in z['seh'].split('\n') if l]
                v = self.explain(p, at, z, log, run)
                if v: return v[0], '%s, exceptions at instructions %s: %s' % (n, at, v[1])
        return None
    def link(self, objs, run):
        d = tempfile.mkdtemp(prefix='hsim-seh-')
        try:
            fs = {'tls.obj': tlsobj(), 'k.lib': B.implib('kernel32.dll', [(x, 0, False) for x in ('WriteFile', 'GetStdHandle', 'RaiseException')]), 'n.lib': B.implib('ntdll.dll', [('__C_specific_handler', 0, False)])}
            for i, x in enumerate(objs): fs['p%d.obj' % i] = x
            for k, x in fs.items(): open(os.path.join(d, k), 'wb').write(x)
            rc, o = call(LINK + ['/out:a.exe'] + list(fs), d)
            if rc: return 'link', 'the objects do not link: %s' % o.replace('\n', ' | ')[:400]
            run.probe('links'); return open(d + '/a.exe', 'rb').read()
        finally: shutil.rmtree(d, ignore_errors=True)
    def judge(self, m, z, n, what):
        if z['status'] not in ('exit', 'unhandled'): return 'program-' + z['status'], '%s, %s: the program ended with %s %s' % (n, what, z['status'], z['detail'][:300])
        got = self.records(z)
        if got != m.out: i = next((i for i, (a, b) in enumerate(zip(got, m.out)) if a != b), min(len(got), len(m.out))); return 'behaviour', '%s, %s: record %d of the program is %s, expected %s (the program ended with %s %#x)' % (n, what, i, got[i:i + 3], m.out[i:i + 3], z['status'], z['code'])
        if (z['status'], z['code'] & 0xffffffff) != m.end: return 'behaviour', '%s, %s: the program ended with %s %#x, expected %s %#x' % (n, what, z['status'], z['code'], *m.end)
    def records(self, z): b = z['stdout'].encode('latin-1'); return [struct.unpack_from('<ii', b, i) for i in range(0, len(b) - 7, 8)]
    def explain(self, p, at, z, log, run):
        """is there a position in the program for each injected exception that explains what was seen?"""
        if z['status'] not in ('exit', 'unhandled'): return 'program-' + z['status'], 'the program ended with %s %s' % (z['status'], z['detail'][:300])
        got = self.records(z); end = (z['status'], z['code'] & 0xffffffff)
        ks = z['inj'] if 'inj' in z else None
        marks = [int(l[3]) // 8 for l in log if len(l) > 4 and l[4] == 'i']; codes = [int(l[2], 16) for l in log if len(l) > 4 and l[4] == 'i']
        for _ in marks: run.probe('injected')
        tried = 0; best = None
        def rec(i, inj):
            nonlocal tried, best
            try: m = Model(p, inj).go()
            except TooLong: return False
            tried += 1
            if i == len(marks):
                if m.out == got and m.end == end: return True
                c = next((j for j, (a, b) in enumerate(zip(got, m.out)) if a != b), min(len(got), len(m.out)))
                if best is None or c > best[0]: best = (c, m.out[c:c + 3], m.end)
                return False
            lo = max([0] + [x for x, _ in inj])
            for pos in range(lo + 1, m.n + 1):
                if m.at[pos - 1] == marks[i] and rec(i + 1, inj + [(pos, codes[i])]): return True
            return False
        if rec(0, []): run.probe('positions', tried); return None
        return 'behaviour', 'no position between the records around the exception explains what the program did: it wrote %s and ended with %s %#x; the closest explanation expects %s at record %s and the end %s (%d positions tried)' % (got[best[0]:best[0] + 3] if best else got[-3:], *end, best[1] if best else '', best[0] if best else '', best[2] if best else '', tried)
