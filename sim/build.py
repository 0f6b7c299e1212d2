"""Builds the simulator and the instrumented compiler from /repo's working tree, into /verif/build (never into /repo)."""
import fcntl, hashlib, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('HSIM_REPO', '/repo')
OUT = os.environ.get('HSIM_BUILD', os.path.join(ROOT, 'build'))
CFLAGS = ('--target=x86_64-pc-windows-msvc -mcx16 -g -gcodeview -w -Wno-error=implicit-function-declaration -fms-extensions '
          '-fno-strict-aliasing -ffast-math -D_Debug -DHLC_SIMULATION').split()

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(map(str, cmd)), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        fl = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in fl:
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def build_sim():
    src = os.path.join(HERE, 'hsim.cpp')
    out = os.path.join(OUT, 'hsim-' + tree_hash([src]))
    if not os.path.exists(out):
        run(['g++', '-std=c++17', '-O2', '-g', '-w', '-fno-pie', '-no-pie', '-fno-stack-protector', '-o', out + '.tmp', src])
        os.rename(out + '.tmp', out)
    return out

def build_hlc():
    key = tree_hash([os.path.join(REPO, 'src'), os.path.join(HERE, 'build.py')])
    d = os.path.join(OUT, 'hlc-' + key)
    exe = os.path.join(d, 'hlc.exe')
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    b = lambda n: os.path.join(d, n)
    # 1. the shipped flags, with the clang front end marking every function for memory access instrumentation
    run(['clang-18'] + CFLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-fsanitize=thread', '-emit-llvm', '-c',
         os.path.join(REPO, 'src/main.c'), '-o', b('a.bc')])
    # 2. promote non-escaping locals only (accesses to memory keep the program's order), then instrument memory accesses and atomics
    run(['opt-18', '-passes=function(mem2reg),tsan-module,function(tsan)', '-tsan-instrument-func-entry-exit=0', '-tsan-distinguish-volatile',
         '-S', b('a.bc'), '-o', b('b.ll')])
    # 3. the two processor instructions that carry nondeterminism become calls into the simulator
    t = open(b('b.ll'), encoding='latin-1').read()
    for intr, name in (('llvm.x86.rdtsc', 'sim_rdtsc'), ('llvm.x86.sse2.pause', 'sim_pause'), ('llvm.readcyclecounter', 'sim_rdtsc')):
        t = re.sub(r'^declare [^\n]*@%s\(\)[^\n]*\n' % re.escape(intr), lambda m: re.sub(r'#\d+', '', m.group(0).replace(intr, name)) if 'declare i64 @sim_rdtsc' not in t or name != 'sim_rdtsc' else '', t, flags=re.M)
        t = t.replace('@%s(' % intr, '@%s(' % name)
    open(b('c.ll'), 'w', encoding='latin-1').write(t)
    run(['llc-18', '-O1', '-mcpu=x86-64', '-mattr=+cx16', '-filetype=obj', b('c.ll'), '-o', b('hlc.obj')])
    und = run(['llvm-nm-18', '-u', b('hlc.obj')]).decode().split()
    names = sorted({(u[6:] if u.startswith('__imp_') else u) for u in und if u != 'U'})
    open(b('sim.def'), 'w').write('LIBRARY sim.dll\nEXPORTS\n' + ''.join('  %s\n' % n for n in names))
    run(['llvm-dlltool-18', '-m', 'i386:x86-64', '-d', b('sim.def'), '-l', b('sim.lib')])
    run(['lld-link-18', '/base:0x180000000', '/heap:0,0', '/stack:0x100000,0x100000', '/opt:ref', '/nodefaultlib', '/entry:_start', '/subsystem:console',
         '/debug', '/pdb:' + b('hlc.pdb'), '/out:' + b('hlc.tmp.exe'), b('hlc.obj'), b('sim.lib')])
    for n in ('a.bc', 'b.ll', 'c.ll', 'hlc.obj'):
        os.unlink(b(n))
    os.rename(b('hlc.tmp.exe'), exe)
    return exe

def build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return build_sim(), build_hlc()

if __name__ == '__main__':
    try:
        print(*build(), sep='\n')
    except BuildError as e:
        print(e); sys.exit(2)
