# Sourced by demonstrations: builds the compiler from /repo/src with a random delay at every memory access, as $W/hlc.exe,
# so that narrow interleavings of its worker threads occur within a few seconds. Everything lives in the scratch folder $W.
set -u
R=$(pwd)
. /opt/hlc/env.sh
W=$(mktemp -d /tmp/hlcdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
L=/opt/hlc/sdk/Lib/10.0.1.0
cat > $W/rt.c <<'X'
#define D __declspec(dllimport)
D void Sleep(unsigned); D int SwitchToThread(void);
unsigned _tls_index_dummy;
static unsigned long long seed, s;
static __attribute__((noinline)) void slow(unsigned long long x){
    unsigned n = 1 + ((x >> 20) & 4095);
    if((x >> 40 & 7) == 0) n *= 16;
    for(volatile unsigned i = 0; i < n; i++);
}
// Every process picks a few places in the code at random and dawdles there now and then.
static inline void go_at(unsigned long long pc){
    if(!seed){ seed = (__builtin_ia32_rdtsc() * 0x9e3779b97f4a7c15ull) | 1; s = seed ^ 77; }
    unsigned long long h = (pc ^ seed) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull;
    if((h >> 40) % 40) return;
    unsigned long long x = (s += 0x9e3779b97f4a7c15ull); x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x ^= x >> 27;
    if((x & 15) == 0) slow(x);
}
void __tsan_atomic_delay(unsigned long long pc){ go_at(pc); }
#define go() go_at((unsigned long long)__builtin_return_address(0))
void __tsan_init(void){}
#define F(n) void __tsan_read##n(void *p){ go(); } void __tsan_write##n(void *p){ go(); } void __tsan_unaligned_read##n(void *p){ go(); } void __tsan_unaligned_write##n(void *p){ go(); } void __tsan_volatile_read##n(void *p){ go(); } void __tsan_volatile_write##n(void *p){ go(); } void __tsan_unaligned_volatile_read##n(void *p){ go(); } void __tsan_unaligned_volatile_write##n(void *p){ go(); } void __tsan_read_write##n(void *p){ go(); } void __tsan_unaligned_read_write##n(void *p){ go(); }
F(1) F(2) F(4) F(8) F(16)
X
python3 - > $W/at.ll <<'X'
print('target triple = "x86_64-pc-windows-msvc"\ndeclare void @__tsan_atomic_delay(ptr)\ndeclare ptr @llvm.returnaddress(i32)\ndefine void @__tsan_atomic_thread_fence(i32 %o){ fence seq_cst\n ret void }\ndefine void @__tsan_atomic_signal_fence(i32 %o){ ret void }')
P = ' %pc = call ptr @llvm.returnaddress(i32 0)\n call void @__tsan_atomic_delay(ptr %pc)\n'
for b in (8, 16, 32, 64, 128):
    t = 'i%d' % b; al = b // 8
    print('define %s @__tsan_atomic%d_compare_exchange_val(ptr %%p, %s %%e, %s %%v, i32 %%a, i32 %%b){\n%s %%r = cmpxchg ptr %%p, %s %%e, %s %%v seq_cst seq_cst, align %d\n %%x = extractvalue {%s, i1} %%r, 0\n ret %s %%x }' % (t, b, t, t, P, t, t, al, t, t))
    print('define %s @__tsan_atomic%d_load(ptr %%p, i32 %%o){\n%s %%x = load atomic %s, ptr %%p seq_cst, align %d\n ret %s %%x }' % (t, b, P, t, al, t))
    print('define void @__tsan_atomic%d_store(ptr %%p, %s %%v, i32 %%o){\n%s store atomic %s %%v, ptr %%p seq_cst, align %d\n ret void }' % (b, t, P, t, al))
    for n, o in (('exchange', 'xchg'), ('fetch_add', 'add'), ('fetch_sub', 'sub'), ('fetch_and', 'and'), ('fetch_or', 'or'), ('fetch_xor', 'xor')):
        print('define %s @__tsan_atomic%d_%s(ptr %%p, %s %%v, i32 %%o){\n%s %%x = atomicrmw %s ptr %%p, %s %%v seq_cst, align %d\n ret %s %%x }' % (t, b, n, t, P, o, t, al, t))
X
(
cd $W
T="--target=x86_64-pc-windows-msvc -mcx16 -w -Wno-error=implicit-function-declaration -fms-extensions -fno-strict-aliasing -ffast-math -D_Debug"
clang-18 $T -O1 -Xclang -disable-llvm-passes -Xclang -fsanitize=thread -emit-llvm -c $R/src/main.c -o a.bc
opt-18 '-passes=function(mem2reg),tsan-module,function(tsan)' -tsan-instrument-func-entry-exit=0 -tsan-instrument-memintrinsics=0 -tsan-distinguish-volatile a.bc -o b.bc
llc-18 -O1 -mcpu=x86-64 -mattr=+cx16 -filetype=obj b.bc -o b.obj
clang-18 $T -O2 -c rt.c -o rt.obj
llc-18 -O2 -mcpu=x86-64 -mattr=+cx16 -filetype=obj at.ll -o at.obj
lld-link-18 /heap:0,0 /stack:0x100000,0x100000 /opt:ref /nodefaultlib /entry:_start /subsystem:console /out:hlc.exe b.obj rt.obj at.obj $L/um/x64/advapi32.lib $L/um/x64/kernel32.lib $L/ucrt/x64/ucrt.lib
ln -sfn $R/implicit implicit
) || { echo "cannot build"; exit 99; }
