"""P14, P16, P18: what binary outputs say, judged against the sources and by independent tools."""
import random, re, struct
import binfmt as B
from core import job, sched, get, put
from props import Prop, prop, incs, run_exe, tail, diags, errors, bad_end, sched_names
from props_fault import OUT, cmd_of, files_of, want, calls, small_project, same_or_reason
from gen import Gen, U8, U16, U32, U64, SCALAR

M32 = 0xffffffff
MAGIC = 0x7ab1e0fadd2e5500

def add_tables(g, r):
    """one table of addresses per unit, found again by its magic number; returns {unit: [(kind, name, detail)]}"""
    tabs = {}
    ext = [('f', f['name'], f) for f in g.funcs] + [('g', n, (k, d)) for n, k, d in g.globs]
    for u in range(g.nu):
        loc = []
        for d in g.decls[u]:
            m = re.match(r'static unsigned (\w+)\(unsigned x\)\{', d)
            if m: loc.append(('lf', m.group(1), None))
            m = re.match(r'static unsigned (\w+) = \d+;$', d)
            if m: loc.append(('lg', m.group(1), None))
        e = loc + (r.sample(ext, r.randint(min(1, len(ext)), len(ext))) if u else ext)
        if not e: continue
        tabs[u] = e
        g.put('struct { unsigned long long m; void *p[%d]; } addr_tab_%d = { %dull, { %s } };' % (len(e), u, MAGIC + u, ', '.join('(void *)%s%s' % ('' if k in ('f', 'lf') and r.random() < .5 else '&', n) for k, n, d in e)), u)
    use = ' '.join('h += addr_tab_%d.m != %dull;' % (u, MAGIC + u) for u in tabs)
    for u, ds in enumerate(g.decls):
        for i, d in enumerate(ds):
            if d.startswith('int _start'):
                ds[i] = d.replace('return (int)h;', use + ' return (int)h;')
                if r.random() < .5: ds[:0] = []
    return tabs

def read_tables(pe, tabs):
    """{unit: [rva]}"""
    out = {}
    for u, e in tabs.items():
        k = pe.b.find(struct.pack('<Q', MAGIC + u)); 
        hits = []
        while k >= 0:
            hits.append(k); k = pe.b.find(struct.pack('<Q', MAGIC + u), k + 1)
        # the table is in a data section (the comparison in the code holds the same number)
        hits = [h for h in hits for nm, va, vs, ro, rs, fl in pe.sections if ro <= h < ro + rs and not fl & 0x20]
        B.need(len(hits) == 1, 'table of unit %d found %d times' % (u, len(hits)))
        v = struct.unpack_from('<%dQ' % len(e), pe.b, hits[0] + 8); out[u] = [x - pe.base for x in v]
    return out

def span(text, d):
    """first and last line of the declaration d in a file"""
    i = text.index(d); return text.count('\n', 0, i) + 1, text.count('\n', 0, i + len(d)) + 1

def fields_of(s):
    """[name, offset, type] of the members of a structure, those of anonymous ones included"""
    out = []; off = 0
    for n, kind, det, cnt in s.fields:
        z, al = (SCALAR[det],) * 2 if kind == 'scalar' else (8, 8) if kind == 'ptr' else (det.size, det.align)
        off = 0 if s.union else (off + al - 1) // al * al
        if not n: out += [[a, off + o, t] for a, o, t in fields_of(det)]
        elif kind == 'ptr': out.append([n, off, ['pointer', 8]])
        elif kind == 'struct': out.append([n, off, ['struct', det.name, det.size]])
        else: out.append([n, off, ['array', SCALAR[det] * cnt, SCALAR[det]] if cnt else ['basic', SCALAR[det]]])
        off += z * (cnt or 1)
    return out


@prop
class P14(Prop):
    id = 'P14'
    cases = (2000, 30000)
    rule = ('a case is a generated valid program to which one table of the addresses of its functions and variables is added per unit, compiled as an executable or library in 6 runs with 1..6 threads under seeded schedules while the clock is set at a seeded value and jumps at seeded instants; '
            'two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        mode = r.choice(['exe', 'exe', 'exe', 'dll'])
        g = small_project(r, tier); tabs = add_tables(g, r); t = g.texts()
        exp = {}; u = 'u%d.c' % r.randrange(g.nu)
        if r.random() < .02:      # more members than one record takes
            m = [['big_constant_%d' % i, r.randint(-2**31, 2**31 - 1) if r.random() < .5 else i] for i in range(r.randint(2400, 3000))]; t[u] += 'enum big_enum { %s };\nenum big_enum big_value = %s;\n' % (', '.join('%s = %s' % (a, '(-2147483647 - 1)' if v == -2**31 else v) for a, v in m), m[-1][0]); exp['e big_enum'] = m
        elif r.random() < .02:
            k = r.randint(2800, 3500); t[u] += 'struct big_struct { %s };\nstruct big_struct big_value;\n' % ' '.join('unsigned member_%d;' % i for i in range(k)); exp['s big_struct'] = [[['member_%d' % i, 4 * i, ['basic', 4]] for i in range(k)], 4 * k, False]
        elif r.random() < .04:
            for i in range(r.randint(300, 900)): t[u] += 'struct small_struct_%d { %s };\n' % (i, ' '.join('unsigned m%d;' % j for j in range(1 + i % 3))); exp['s small_struct_%d' % i] = [[['m%d' % j, 4 * j, ['basic', 4]] for j in range(1 + i % 3)], 4 + 4 * (i % 3), False]
        for s in g.structs: exp['s ' + s.name] = [fields_of(s), s.size, s.union]
        for u, e in tabs.items():
            for k, n, d in e:
                if k == 'f':
                    fu = next(x for x in range(g.nu) for y in g.decls[x] if re.search(r'\b%s\([^;{]*\)\{\n' % n, y.split('\n')[0] + '\n')); dd = next(y for y in g.decls[fu] if re.search(r'\b%s\([^;{]*\)\{\n' % n, y.split('\n')[0] + '\n'))
                    exp['f ' + n] = ['u%d.c' % fu, *span(t['u%d.c' % fu], dd), ['basic4', 2] if d['kind'] == 'u' else ['struct', d['s'].name, d['s'].size, 1]]
                elif k == 'g':
                    kind, det = d
                    exp['g ' + n] = ['basic', 4] if kind == 'u' else ['array', 4 * det] if kind == 'a' else ['pointer', 8] if kind == 'p' else ['struct', det.name, det.size] if kind == 's' else ['chars', det]
                elif k == 'lf':
                    dd = next(y for y in g.decls[u] if y.startswith('static unsigned %s(unsigned x)' % n)); exp['lf %d %s' % (u, n)] = ['u%d.c' % u, *span(t['u%d.c' % u], dd), ['basic4', 1]]
        js = {}; big = any('big_' in k for k in exp)
        for j in range(2 if big else 6):
            tc = r.choice([1, 2, 2, 3, 4, 6]); ff = []; ex = []
            if r.random() < .5: ex.append(['clock', r.choice([116444736000000000 + 10000000, 116444736000000000 + (1 << 31) * 10000000, 116444736000000000 + (1 << 32) * 10000000 - 5, r.randint(125000000000000000, 140000000000000000)])])
            if r.random() < .6:
                for _ in range(r.choice([1, 2, 4])): ff.append(('any', r.randint(1, 90 + 20 * len(t)), 'clock=%d' % r.choice([-36000000000, 10000000, -10000000, 20000000000, r.randint(-10**15, 10**15)])))
                if r.random() < .5: ff.append(('clock', r.randint(1, 40), '%d' % r.choice([10000000, -10000000, 3 * 10**12])))
            if r.random() < .2: ex += [['file', o + '\0' + 'old' * 30000] for o in want(mode)]
            js['s%d' % j] = job(t, cmd_of(mode, t, tc, r.choice(['', '', '-seed %d' % r.randint(1, 1 << 30)])), *ex, sched=[('seed', r.getrandbits(48)), ('mode', 1), ('mean', r.choice([400, 2000])), ('budget', 8000000000)] if big else sched(r) if tc > 1 else None, faults=ff)
        return {'scenario': mode, 'jobs': js, 'params': {'mode': mode, 'tabs': {str(u): [[k, n] for k, n, d in e] for u, e in tabs.items()}, 'exp': exp}}
    def check(self, case, run):
        p = case['params']; mode = p['mode']; tabs = {int(u): e for u, e in p['tabs'].items()}
        for n in case['jobs']:
            q = run(n)
            if q['status'] != 'exit': return q['status'], '%s: %s' % (n, bad_end(q))
            if q['code']: return 'rejected', '%s: a valid program was rejected: %s' % (n, tail(q['stdout']))
            try:
                for w in want(mode):
                    if w not in q['files']: return 'missing', '%s: %s was not written' % (n, w)
                v = self.judge(p, tabs, B.PE(q['files'][want(mode)[0]]), B.PDB(q['files'][want(mode)[1]]), run)
            except B.Bad as e: return 'malformed', '%s: %s' % (n, e)
            if v: return v[0], '%s: %s' % (n, v[1])
        return None
    def judge(self, p, tabs, pe, pdb, run):
        pdb.parse().types().lookup().tables()
        d = pe.debug()
        if len(d) != 1: return 'pair', 'the executable names %d debug information files' % len(d)
        i = pdb.info()
        if d[0][1] != i[3] or d[0][2] != i[2] or pdb.age != i[2]: return 'pair', 'the executable names %s age %d, the debug information is %s age %d (%d)' % (d[0][1].hex(), d[0][2], i[3].hex(), i[2], pdb.age)
        if not re.search(r'(?i)(^|[/\\])a\.pdb$', d[0][3]): return 'pair', 'the executable names %s as its debug information' % d[0][3]
        if [(x[0], x[2], x[1]) for x in pe.sections] != pdb.sections: return 'sections', 'sections of the executable %s, in the debug information %s' % (pe.sections, pdb.sections)
        text = [(va, va + vs) for nm, va, vs, ro, rs, fl in pe.sections if fl & 0x20]
        ex = sorted({(a, s, n) for n, v in pdb.procs.items() for a, s, k in v})
        for (a, s, n), (b, s2, n2) in zip(ex, ex[1:]):
            if a + s > b: return 'overlap', '%s at %x+%x overlaps %s at %x' % (n, a, s, n2, b)
        for a, s, n in ex:
            if not any(lo <= a and a + s <= hi for lo, hi in text): return 'range', '%s at %x+%x lies outside of the code' % (n, a, s)
        at = {u: x for u, x in read_tables(pe, tabs).items()}
        for u, e in tabs.items():
            for (k, n), rva in zip(e, at[u]):
                run.probe('addresses compared')
                if k in ('f', 'lf'):
                    c = [x for x in pdb.procs.get(n, []) if x[0] == rva]
                    if len(c) != 1: return 'function', '%s is at %x in the program, the debug information has it at %s' % (n, rva, [(hex(x[0]), x[1]) for x in pdb.procs.get(n, [])])
                    if k == 'f' and len(pdb.procs[n]) != 1: return 'function', '%s is listed %d times' % (n, len(pdb.procs[n]))
                    if n not in pdb.gnames: return 'lookup', '%s is not in the table of names' % n
                    want_ = p['exp'][('f ' if k == 'f' else 'lf %d ' % u) + n]; fn, lo, hi, ty = want_
                    l = pdb.lines.get(rva)
                    if not l: return 'lines', '%s has no line information' % n
                    for off, line, src in l:
                        if src.replace('\\', '/').lower() != 'c:/work/' + fn: return 'lines', 'code of %s (%s) is attributed to %s' % (n, fn, src)
                        if not lo <= line <= hi: return 'lines', 'code of %s (lines %d..%d of %s) is attributed to line %d' % (n, lo, hi, fn, line)
                        if off >= c[0][1]: return 'lines', 'line %d of %s is at offset %d of %d bytes' % (line, n, off, c[0][1])
                    if [x[0] for x in l] != sorted(x[0] for x in l): return 'lines', 'the lines of %s are not sorted by address' % n
                    if hi - lo > 1 and hi - 1 not in [x[1] for x in l]: return 'lines', 'the return statement of %s (line %d) has no code, lines %s' % (n, hi - 1, [x[1] for x in l])
                    td = pdb.describe(pdb.proctype[n, rva])
                    if td[0] != 'function' or (ty[0] == 'basic4' and (td[1][0] != 'basic' or pdb.BASIC.get(td[1][1]) != 4 or len(td[2]) != ty[1])) or (ty[0] == 'struct' and (td[1][:3] != ('struct', ty[1], ty[2]) or len(td[2]) != 1)): return 'type', 'the type of %s is %s, declared as %s' % (n, td, ty)
                else:
                    c = [x for x in pdb.data.get(n, []) if x[0] == rva and x[2] < 0x1112]
                    if len(c) != 1: return 'variable', '%s is at %x in the program, the debug information has it at %s' % (n, rva, [hex(x[0]) for x in pdb.data.get(n, [])])
                    if k == 'g' and len(pdb.data[n]) != 1: return 'variable', '%s is listed %d times' % (n, len(pdb.data[n]))
                    if n not in pdb.gnames: return 'lookup', '%s is not in the table of names' % n
                    td = pdb.describe(c[0][1]); ty = p['exp']['g ' + n] if k == 'g' else ['basic', 4]; sz = pdb.tsize(c[0][1])
                    ok = {'basic': td[0] == 'basic' and sz == ty[1], 'array': td[0] == 'array' and sz == ty[1] and td[1][0] == 'basic', 'pointer': td[0] == 'pointer', 'struct': td[0] == 'struct' and td[1:] == tuple(ty[1:]), 'chars': td[0] == 'pointer' or td[0] == 'array' and sz == (ty[1] or 0) + 1}[ty[0]]
                    if not ok: return 'type', 'the type of %s is %s (%d bytes), declared as %s' % (n, td, sz, ty)
        for k, m in p['exp'].items():
            if k[:2] in ('s ', 'e ') and ('big_' in k or 'small_' in k) and not any((x, k[2:]) in pdb.tname for x in (0x1505, 0x1507)): return 'type', '%s is not listed' % k[2:]
            if k[:2] == 'e ':
                for x in pdb.tname[0x1507, k[2:]]:
                    got = [[a, v] for a, v, _ in pdb.members(x)[0]]
                    if [[a, v & 0xffffffff] for a, v in got] != [[a, v & 0xffffffff] for a, v in m]: return 'member', 'the constants of %s differ, the first at %s' % (k[2:], next((x, y) for x, y in zip(got + [None], m + [None]) if x != y))
        for (k, nm), ts in pdb.tname.items():
            if 's ' + nm not in p['exp']: continue
            run.probe('structures compared'); fs, size, un = p['exp']['s ' + nm]
            if k != (0x1506 if un else 0x1505): return 'type', '%s is of kind 0x%x' % (nm, k)
            for t in ts:
                m, sz = pdb.members(t)
                if sz != size: return 'type', '%s has %d bytes, the debug information says %d' % (nm, size, sz)
                got = {a: (o, pdb.describe(x), pdb.tsize(x)) for a, o, x in m}
                for a, o, ty in fs:
                    if a not in got: return 'member', '%s of %s is not listed: %s' % (a, nm, sorted(got))
                    o2, td, z = got[a]
                    ok = o2 == o and {'basic': td[0] == 'basic' and z == ty[1], 'pointer': td[0] == 'pointer', 'array': td[0] == 'array' and z == ty[1] and td[1][0] == 'basic' and pdb.BASIC.get(td[1][1]) == ty[-1], 'struct': td[0] in ('struct', 'union') and td[1:3] == tuple(ty[1:])}[ty[0]]
                    if not ok: return 'member', '%s of %s is %s at %d (%d bytes), declared as %s at %d' % (a, nm, td, o2, z, ty, o)
                if [x[0] for x in m if x[0] in {a for a, _, _ in fs}] != [a for a, _, _ in fs]: return 'member', 'the members of %s are listed as %s' % (nm, [x[0] for x in m])
        return None
