"""P21: the start-up code, i.e. what happens before main, judged by running the program in a simulated system with its own command line and environment."""
import random, re
import binfmt as B
from core import job, sched, get
from gen import Gen
from props import Prop, prop, incs, run_exe, tail, bad_end, outs
from props_fault import calls
M32 = 0xffffffff

def split(s):
    """the rules of Windows for command lines"""
    out = []; i = 0
    while True:
        while i < len(s) and s[i] in ' \t': i += 1
        if i == len(s): return out
        a = ''; q = False
        while i < len(s) and (q or s[i] not in ' \t'):
            if s[i] == '\\':
                n = 0
                while i < len(s) and s[i] == '\\': n += 1; i += 1
                if i < len(s) and s[i] == '"':
                    a += '\\' * (n // 2)
                    if n & 1: a += '"'; i += 1
                else: a += '\\' * n
            elif s[i] == '"':
                if q and s[i + 1:i + 2] == '"': a += '"'; i += 2
                else: q = not q; i += 1
            else: a += s[i]; i += 1
        out.append(a)

def winmain_line(s):
    """the command line without the name of the program"""
    i = 0; q = False
    while i < len(s) and (q or s[i] not in ' \t'): q ^= s[i] == '"'; i += 1
    return s[i:].lstrip(' \t')

def command_line(r):
    s = r.choice(['a.exe', 'a', 'C:\\work\\a.exe', '"a.exe"', '"C:\\my dir\\a.exe"', '..\\x\\a.exe', 'C:\\"my dir"\\a.exe'])
    n = r.choice([0, 0, 1, 1, 2, 3, 6, 20])
    for _ in range(n):
        s += r.choice([' ', ' ', ' ', '\t', '   ', ' \t '])
        for _ in range(r.choice([1, 1, 2, 4, 9])):
            s += r.choice(['a', 'b', 'word', '/x', '-o', '=', '\\', '\\\\', '\\\\\\', '"', '"', '""', '" "', '\\"', '"two words"', '\xe9', '*', '?.c', '%A%', "'", '^', '\x7f'])
    return s + r.choice(['', '', ' ', '\t '] + ['\\', '"'] * (n > 0))

def environment(r):
    e = ['=C:=C:\\work', '=ExitCode=00000001'][:r.randrange(3)]
    for _ in range(r.choice([0, 1, 2, 5, 30])): e.append(r.choice(['PATH', 'A', 'TEMP', 'X%d' % r.randrange(99), 'ProgramFiles(x86)']) + '=' + r.choice(['', '1', 'C:\\Windows;C:\\x', 'a=b', '\xe4' * 3, 'y' * r.randrange(300)]))
    if r.random() < .2: e.append('=D:=D:\\')
    return e

KINDS = {'main0': 'int main(void)', 'main()': 'int main()', 'main2': 'int main(int argc, char **argv)', 'main3': 'int main(int argc, char **argv, char **envp)', 'mainx': 'int main(int argc, char *argv[])',
         'wmain0': 'int wmain(void)', 'wmain2': 'int wmain(int argc, unsigned short **argv)', 'wmain3': 'int wmain(int argc, unsigned short **argv, unsigned short **envp)',
         'WinMain': 'int WinMain(struct HINSTANCE__ *inst, struct HINSTANCE__ *prev, char *line, int show)', 'wWinMain': 'int wWinMain(struct HINSTANCE__ *inst, struct HINSTANCE__ *prev, unsigned short *line, int show)'}
ORDER = ['main', 'wmain', 'WinMain', 'wWinMain']
base = lambda k: re.sub(r'(\d|\(\)|x)$', '', k)

@prop
class P21(Prop):
    id = 'P21'
    cases = (1500, 15000)
    rule = ('a case is a generated program of 1..5 units that begins with main, wmain, WinMain or wWinMain (sometimes with several of them), compiled by one thread and under 5 seeded schedules, also with faults while the start-up source is read; '
            'every executable is run with 4 command lines and environments; two cases are the same if all their runs took the same interleavings')
    def make(self, r, seed, tier):
        g = Gen(r.getrandbits(40), r.choice([1, 1, 2, 3, 5]), r.choice([2, 4, 8, 14]), ()).generate([])
        for ds in g.decls:
            for i, d in enumerate(ds):
                if d.startswith('int _start('): ds[i] = d.replace('int _start(', 'unsigned program(', 1)
        ks = [r.choice(list(KINDS))]
        if r.random() < .25:
            for k in r.sample(list(KINDS), 2):
                if base(k) not in map(base, ks): ks.append(k)
        sub = r.choice(['console', 'windows']) if r.random() < .25 else None
        ok = [k for k in ks if not sub or (sub == 'windows') == ('WinMain' in k)]
        if not ok: ok = ks; sub = None
        pick = min(ok, key=lambda k: ORDER.index(base(k)))
        own = r.random() < .06      # a program with its own _start gets no start-up code
        if own and sub == 'windows': own = False
        salt = {}
        for i, k in enumerate(ks):
            salt[k] = r.getrandbits(32); w = 'w' in k[0]; t = 'unsigned short' if w else 'unsigned char'
            b = ['static unsigned calls;', 'unsigned h = program() ^ %du, n = calls++;' % salt[k]]
            if 'argc' in KINDS[k]:
                b += ['h = mix(h, argc);', 'for(int i = 0; i < argc; i++) for(%s *p = (%s *)argv[i]; ; p++){ h = mix(h, *p); if(!*p) break; }' % (t, t), 'h = mix(h, argv[argc] == 0);']
            if 'envp' in KINDS[k]:
                b += ['for(int i = 0; envp[i]; i++) for(%s *p = (%s *)envp[i]; ; p++){ h = mix(h, *p); if(!*p) break; }' % (t, t)]
            if 'inst' in KINDS[k]:
                b += ['h = mix(h, (unsigned)((unsigned long long)inst >> 16)); h = mix(h, (unsigned)show); h = mix(h, prev == 0);', 'for(%s *p = (%s *)line; ; p++){ h = mix(h, *p); if(!*p) break; }' % (t, t)]
            g.put('%s{\n    %s\n}' % (KINDS[k], '\n    '.join(b + ['return (int)(h + n);'])), ent=base(k))
        g.put('unsigned mix(unsigned h, unsigned c){ return (h ^ c) * 16777619u; }', ent='mix')
        if own: g.put('int _start(void){ return (int)(program() ^ 77u); }', ent='_start')
        for d in g.decls: r.shuffle(d)
        if r.random() < .5: g.make_headers(r)
        t = g.texts(); files = [x for x in t if x.endswith('.c')]; r.shuffle(files)
        cmd = 'hlc.exe %s -out a.exe -quiet%s%s%s -thread_count %%d' % (' '.join(files), incs(t), r.choice(['', '', ' -nodebug']), ' -subsystem %s' % sub if sub else '')
        js = {'base': job(t, cmd % 1)}
        for j in range(5): tc = r.choice([2, 2, 3, 4, 6]); js['s%d' % j] = job(t, cmd % tc, sched=sched(r))
        b = self.run(js['base']); mine = [c for c in calls(b) if c[0] in ('open', 'read', 'fileinfo') and '/implicit/' in c[3].lower()]
        for j in range(2):
            if not mine: break
            c = r.choice(mine); js['f%d' % j] = job(t, cmd % r.choice([1, 2, 3]), sched=sched(r), faults=[(c[0], c[1], r.choice({'open': ['sharing', 'denied'], 'read': ['io', 'short=%d' % r.randrange(1 << 12)], 'fileinfo': ['io']}[c[0]]))])
        envs = []
        for _ in range(4):
            envs.append([command_line(r), environment(r), r.choice([0, 1, 1, 0x80]), r.randrange(12)])
        return {'scenario': 'own start' if own else base(pick), 'jobs': js, 'params': {'kind': None if own else pick, 'salt': salt[pick], 'program': g.expected(), 'runs': envs, 'sub': 2 if 'WinMain' in pick and not own else 3}}
    def check(self, case, run):
        p = case['params']; k = p['kind']
        for n in case['jobs']:
            q = run(n); hit = bool(q['faults']); f = get(case['jobs'][n], 'faults'); tag = '%s (%s)' % (n, f.strip().replace('\n', ';')) if f else n
            if q['status'] != 'exit': return q['status'], '%s: %s' % (tag, bad_end(q))
            if q['code']:
                if not hit: return 'rejected', '%s: a valid program was rejected: %s' % (tag, tail(q['stdout']))
                if not (q['stdout'] + q.get('stderr', '')).strip(): return 'silent', '%s: exit code %d without a message' % (tag, q['code'])
                if outs(q): return 'output', '%s: exit code %d, but %s written' % (tag, q['code'], outs(q))
                run.probe('fault reported'); continue
            data = q['files'].get('c:/work/a.exe')
            if data is None: return 'no-output', '%s: exit code 0 but no executable' % tag
            i = int.from_bytes(data[0x3c:0x40], 'little'); s = int.from_bytes(data[i + 24 + 68:i + 24 + 70], 'little')
            if s != p['sub']: return 'subsystem', '%s: the subsystem is %d, expected %d' % (tag, s, p['sub'])
            for cl, env, fl, show in p['runs'] if n == 'base' else p['runs'][:2]:
                z = run_exe(run, data, cmd=cl, env=''.join(e + '\0' for e in env), startup='%d %d' % (fl, show))
                what = '%s, %s: run as %r with environment %r' % (tag, k, cl, env)
                if z['status'] != 'exit': return 'program-' + z['status'], '%s the program ended with %s %s' % (what, z['status'], z['detail'][:200])
                if not k: want = (p['program'] ^ 77) & M32
                else:
                    h = (p['program'] ^ p['salt']) & M32
                    mix = lambda c: ((h ^ (c & M32)) * 16777619) & M32
                    if 'argc' in KINDS[k]:
                        a = split(cl); h = mix(len(a))
                        for x in a:
                            for c in x + '\0': h = mix(ord(c))
                        h = mix(1)
                    if 'envp' in KINDS[k]:
                        for x in env:
                            if x[0] == '=': continue
                            for c in x + '\0': h = mix(ord(c))
                    if 'inst' in KINDS[k]:
                        h = mix((z_base(data, case)) >> 16); h = mix(show if fl & 1 else 10); h = mix(1)
                        for c in winmain_line(cl) + '\0': h = mix(ord(c))
                    want = h
                if z['code'] & M32 != want: return 'start', '%s: the program did not get what the start-up code has to pass: it returned %d, expected %d' % (what, z['code'] & M32, want)
                run.probe(k or 'own start')
        return None

def z_base(data, case):
    """where the image is loaded: where it asks for, or where the system put it if it may be moved"""
    i = int.from_bytes(data[0x3c:0x40], 'little') + 24; b = int.from_bytes(data[i + 24:i + 32], 'little')
    return case['base'] if case.get('base') and int.from_bytes(data[i + 70:i + 72], 'little') & 0x40 else b
