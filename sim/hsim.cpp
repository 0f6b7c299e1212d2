// hsim: deterministic simulator for the Headerless-C compiler (hlc) and for the programs it produces.
//
// One Linux process loads the real compiler (a Windows PE image, built from /repo/src with the ThreadSanitizer
// *instrumentation pass* as the seam for memory accesses and atomics) and supplies every operating system service
// it imports: threads, events, virtual memory, the file system, the registry, clocks, stdout.
// Threads are coroutines; a seeded policy (or an explicit replay list) decides who runs at every scheduling point;
// a fault plan decides which operating system calls fail and how.
// Every run is executed in a forked child, so a run is a pure function of the job description.
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <asm/prctl.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef unsigned __int128 u128;
#define WINAPI __attribute__((ms_abi))
#define SLOW __attribute__((noinline, cold))
using std::string; using std::vector;

// ------------------------------------------------------------------------------------------------ PRNG
struct Rng {
    u64 s;
    static u64 mix(u64 z){ z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 next(){ s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 below(u64 n){ return n ? next() % n : 0; }
    bool chance(u64 num, u64 den){ return below(den) < num; }
    u64 geom(u64 mean){ if(mean <= 1) return 1; u64 n = 1; // bounded geometric, integer arithmetic only
        u64 r = next(); // inverse-transform by doubling buckets
        double u = (double)((r >> 11) + 1) * (1.0 / 9007199254740993.0);
        double v = -__builtin_log(u) * (double)mean; n = (u64)v + 1; return n; }
};

// ------------------------------------------------------------------------------------------------ TLV
struct Buf { string d;
    void put(const string &k, const string &v){ d.push_back((char)k.size()); d += k; u32 n = (u32)v.size(); d.append((char *)&n, 4); d += v; } };
static vector<std::pair<string,string>> tlv_parse(const char *p, size_t n){
    vector<std::pair<string,string>> r; size_t i = 0;
    while(i < n){ u8 kl = p[i++]; string k(p + i, kl); i += kl; u32 vl; memcpy(&vl, p + i, 4); i += 4; r.emplace_back(k, string(p + i, vl)); i += vl; }
    return r; }
static bool read_all(int fd, void *p, size_t n){ char *c = (char *)p; while(n){ ssize_t r = read(fd, c, n); if(r <= 0){ if(r < 0 && errno == EINTR) continue; return false; } c += r; n -= r; } return true; }
static bool write_all(int fd, const void *p, size_t n){ const char *c = (const char *)p; while(n){ ssize_t r = write(fd, c, n); if(r <= 0){ if(r < 0 && errno == EINTR) continue; return false; } c += r; n -= r; } return true; }

// ------------------------------------------------------------------------------------------------ virtual file system
struct Node { bool dir = false; string data; const char *ext = nullptr; u64 ext_size = 0; string name; u64 mtime = 132000000000000000ull; bool written = false; bool readonly = false; u32 opens = 0;
    const char *ptr() const { return ext ? ext : data.data(); } u64 size() const { return ext ? ext_size : data.size(); } };
static std::map<string, Node> base_fs;  // loaded once
static std::map<string, Node> fs;       // per run

static string lower(string s){ for(char &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
static string g_cwd = "C:/work";
static string norm_path(const string &p_, string *display = nullptr){
    string p = p_; for(char &c : p) if(c == '\\') c = '/';
    if(!(p.size() >= 2 && p[1] == ':')){ if(!p.empty() && p[0] == '/') p = "C:" + p; else p = g_cwd + "/" + p; }
    vector<string> parts; size_t i = 0;
    while(i <= p.size()){ size_t j = p.find('/', i); if(j == string::npos) j = p.size(); string s = p.substr(i, j - i); i = j + 1;
        if(s.empty() || s == ".") continue; if(s == ".."){ if(parts.size() > 1) parts.pop_back(); continue; } parts.push_back(s); }
    string r; for(auto &s : parts){ if(!r.empty()) r += "/"; r += s; }
    if(display) *display = r;
    return lower(r);
}
static void fs_mkdirs(std::map<string, Node> &f, const string &display){
    string d; size_t i = 0;
    while(i <= display.size()){ size_t j = display.find('/', i); if(j == string::npos) j = display.size();
        string full = display.substr(0, j); string k = lower(full); auto &n = f[k]; if(n.name.empty()){ n.dir = true; n.name = display.substr(i, j - i); } i = j + 1; }
}
static Node &fs_add(std::map<string, Node> &f, const string &path){
    string disp; string k = norm_path(path, &disp); size_t s = disp.rfind('/'); if(s != string::npos) fs_mkdirs(f, disp.substr(0, s));
    Node &n = f[k]; n.dir = false; n.name = s == string::npos ? disp : disp.substr(s + 1); return n; }
static void load_host_tree(const string &host, const string &virt){
    DIR *d = opendir(host.c_str()); if(!d) return; fs_mkdirs(base_fs, virt);
    vector<string> names; while(dirent *e = readdir(d)){ string n = e->d_name; if(n != "." && n != "..") names.push_back(n); } closedir(d);
    std::sort(names.begin(), names.end());
    for(auto &n : names){ string h = host + "/" + n; struct stat st; if(stat(h.c_str(), &st)) continue;
        if(S_ISDIR(st.st_mode)) load_host_tree(h, virt + "/" + n);
        else { Node &node = fs_add(base_fs, virt + "/" + n); int fd = open(h.c_str(), O_RDONLY); if(fd < 0) continue; node.ext_size = st.st_size;
            if(st.st_size){ void *m = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); node.ext = (const char *)m; } else node.ext = ""; close(fd); } }
}

// ------------------------------------------------------------------------------------------------ run state
enum TState { T_RUN, T_BLOCK, T_DONE };
struct Obj { int type = 0; // 1 file 2 event 3 find 4 thread 5 regkey 6 semaphore 7 stdout 8 mutex
    string path; u64 pos = 0; bool wr = false; bool manual = false, signaled = false; vector<std::pair<string, Node*>> list; size_t at = 0; int tid = 0; s64 count = 0, maxc = 0; int owner = -1; int depth = 0; };
struct Exc; struct Frame { u64 slot, ret, nv[8]; }; // a call: where its return address is, the return address, and the registers it has to preserve
struct Thread { // `sp` and `step_ret` are used by the assembly code below
    void *sp = nullptr; u64 step_ret = 0; int id = 0; TState st = T_RUN; void *start = nullptr, *param = nullptr; u8 *stack_lo = nullptr, *stack_hi = nullptr;
    u64 ev = 0, trig = ~0ull, quiet = 0, since = 0, idle = 0; bool spins = false; u64 spins_at = 0; u64 prio = 0; u32 last_error = 0; u64 wait_obj = 0; u64 addr_wait = 0; bool timed = false; u64 deadline = 0; bool timed_out = false; u8 *teb = nullptr; void *tls_block = nullptr; u64 hobj = 0;
    vector<std::pair<u64,int>> sw; size_t swi = 0; u64 tls[64] = {0}; u64 exit_code = 0;
    struct Buffered { u64 a; u32 n; u8 old[16], val[16]; }; vector<Buffered> buf; u64 pend_a = 0; u32 pend_n = 0; u8 pend[16]; int step_why = 0; bool resumed = false;
    vector<Frame> shadow; vector<Exc *> excs; u64 call_rsp = 0; bool entering = false; }; // exceptions, see seh_step
struct Switch { int tid; u64 ev; int to; u64 pc; u8 why; };

static const u64 WIN_LO = 0x100000000ull, WIN_HI = 0x100000000000ull; // 4G .. 16T
static u8 *SH = (u8 *)0x600000000000ull;
static u64 alloc_at = 0x1000000000ull;
static u64 IMG_LO = 0, IMG_HI = 0;

static Thread *cur; static vector<Thread *> threads; static u64 step_mode = 0, tso = 0, n_stepped = 0, n_buffered = 0, n_delayed = 0;
static Rng prng; static Rng addr_rng;
static int gran = 1;           // 0: synchronisation only, 1: accesses to memory modified while shared, 2: all accesses to shared memory
static int mode = 0;           // 0 explicit/none, 1 random, 2 pct, 3 site
static u64 p_mean = 500, pct_k = 0; static vector<u64> pct_points; static size_t pct_at = 0; static u64 site_mod = 64, site_seed = 0, site_mean = 3;
static u64 committed = 0, mem_limit = 0;
static u64 total_ev = 0, total_steps = 0, step_budget = 400000000ull; static u64 fair = 20000, spin_lim = 200;
static vector<Switch> trace; static u64 sched_hash = 1469598103934665603ull;
static u64 sw_cap = 150000; static bool want_trace = false;
static u64 n_preempt = 0, n_forced = 0, shared_first = 0;
static std::unordered_set<u64> preempt_sites;
static vector<Obj> objs; static string out_stdout, out_stderr; static vector<string> oslog; static std::map<string, u32> oscount;
static u64 clock_base = 133500000000000000ull; static s64 clock_jump = 0; static u64 clock_calls = 0;
static int nproc = 4; static u64 enum_seed = 0; static string envstrings; static u32 startup_flags, startup_show; static string cmdline = "hlc.exe", modname = "C:\\hlc\\hlc.exe";
static bool poison = true; static u64 mem_seed = 0;
static u64 disk_left = ~0ull;   // bytes until the simulated disk is full
static vector<string> sdk_versions; static std::map<string, string> sdk_opt; static string kits_root = "C:\\sdk\\"; static u64 kits_zeros = 1;
static bool tls_needed = false; static u64 n_allocs = 0;
static u8 *shm; static size_t shm_cap = 512ull << 20;
static bool is_child = false; static vector<string> probes;
struct Fault { string kind; u64 nth; string arg; bool fired = false; };
static vector<Fault> faults; static std::map<string, u64> fault_fired;
static vector<std::pair<u64, u64>> freed; // freed address ranges
static string g_note; static vector<string> initial_files;

static string seh_log; static void finish(const string &status, u64 code, const string &detail) __attribute__((noreturn));

static const char *why_name[] = {"preempt", "block", "exit", "spin", "pause", "fair", "start"};
static void finish(const string &status, u64 code, const string &detail){
    Buf b; b.put("status", status); b.put("code", std::to_string(code)); b.put("detail", detail); b.put("stdout", out_stdout); b.put("stderr", out_stderr);
    string t; char tmp[256];
    if(want_trace) for(auto &s : trace){ snprintf(tmp, sizeof tmp, "%d %llu %d %llx %s\n", s.tid, (unsigned long long)s.ev, s.to, (unsigned long long)s.pc, why_name[s.why]); t += tmp; }
    b.put("trace", t);
    string o; for(auto &s : oslog){ o += s; o += "\n"; } b.put("oslog", o);
    snprintf(tmp, sizeof tmp, "%016llx", (unsigned long long)sched_hash); b.put("schedhash", tmp);
    string st; auto add = [&](const char *k, u64 v){ snprintf(tmp, sizeof tmp, "%s=%llu ", k, (unsigned long long)v); st += tmp; };
    add("steps", total_steps); add("events", total_ev); add("preempt", n_preempt); add("forced", n_forced); add("threads", threads.size()); add("sites", preempt_sites.size()); add("stepped", n_stepped); add("buffered", n_buffered); add("delayed", n_delayed);
    add("simtime_ns", total_steps * 10); add("committed", committed); add("tid", cur ? cur->id : 0); b.put("stats", st);
    string ff; for(auto &k : fault_fired){ snprintf(tmp, sizeof tmp, "%s=%llu ", k.first.c_str(), (unsigned long long)k.second); ff += tmp; } b.put("faults", ff);
    string pe; for(auto &t2 : threads){ snprintf(tmp, sizeof tmp, "%d:%llu ", t2->id, (unsigned long long)t2->ev); pe += tmp; } b.put("tev", pe);
    b.put("note", g_note); b.put("seh", seh_log);
    { string rm; for(auto &n : initial_files) if(!fs.count(n)) rm += n + "\n"; b.put("removed", rm); }
    { string ps; for(u64 s : preempt_sites){ snprintf(tmp, sizeof tmp, "%llx ", (unsigned long long)s); ps += tmp; } b.put("psites", ps); }
    for(auto &kv : fs) if(kv.second.written && !kv.second.dir) b.put("file", kv.first + string(1, '\0') + string(kv.second.ptr(), kv.second.size()));
    if(b.d.size() + 8 > shm_cap){ b.d.clear(); b.put("status", "simerror"); b.put("detail", "result too large"); }
    u64 n = b.d.size(); memcpy(shm + 8, b.d.data(), n); __sync_synchronize(); *(volatile u64 *)shm = n; _exit(0);
}
static void simerror(const char *f, ...) __attribute__((noreturn, format(printf, 1, 2)));
static void simerror(const char *f, ...){ char b[1024]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); finish("simerror", 0, b); }

extern "C" u32 hsim_step_call(void *start, void *param);
extern "C" char hsim_raise_exception[], hsim_exc_resume[]; extern "C" void hsim_C_specific_handler(void);
// ------------------------------------------------------------------------------------------------ context switch
extern "C" void hsim_swtch(void **save, void *to);
asm(R"(
.text
.globl hsim_swtch
hsim_swtch:
    push %rbp
    push %rbx
    push %r12
    push %r13
    push %r14
    push %r15
    sub $16, %rsp
    stmxcsr (%rsp)
    fnstcw 8(%rsp)
    mov %rsp, (%rdi)
    mov %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 8(%rsp)
    add $16, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbx
    pop %rbp
    ret
)");
static void set_gs(Thread *t){ if(tls_needed && t->teb) syscall(SYS_arch_prctl, ARCH_SET_GS, t->teb); }
static void switch_to(Thread *t){ Thread *me = cur; if(t == me) return; cur = t; t->since = 0; t->spins = false; set_gs(t); hsim_swtch(&me->sp, t->sp); }

static u64 sim_now(){ return clock_base + (u64)clock_jump + total_steps / 10; }

static u64 changes = 0; // operations that changed shared state
// a thread that was found spinning is not worth running before shared state has changed
static bool ready(Thread *t){ return t->st == T_RUN && !(t->spins && t->spins_at == changes); }
static bool runnable(Thread *t){ return t->st == T_RUN; }
// pick among runnable threads other than `cur` (deterministic default: next in cyclic order)
static Thread *pick_default(){ size_t n = threads.size(); for(size_t i = 1; i <= n; i++){ Thread *t = threads[(cur->id + i) % n]; if(t != cur && ready(t)) return t; } for(size_t i = 1; i <= n; i++){ Thread *t = threads[(cur->id + i) % n]; if(t != cur && runnable(t)) return t; } return nullptr; }
static void arm(Thread *t){
    if(mode == 1) t->trig = t->ev + prng.geom(p_mean);
    else if(mode == 0){ while(t->swi < t->sw.size() && t->sw[t->swi].first <= t->ev) t->swi++; t->trig = t->swi < t->sw.size() ? t->sw[t->swi].first : ~0ull; }
    else t->trig = ~0ull;
}
static Thread *pick(int why){
    if(why == 3 || why == 4){ cur->spins = true; cur->spins_at = changes; }
    if(mode == 0){
        // replay: use the listed target for exactly this (thread, event), if there is one
        for(size_t i = cur->swi; i < cur->sw.size() && cur->sw[i].first <= cur->ev; i++) if(cur->sw[i].first == cur->ev){
            int to = cur->sw[i].second & 0xffff; if(to >= 0 && to < (int)threads.size() && threads[to] != cur && runnable(threads[to])) return threads[to]; }
        if(why == 0) return nullptr;
        return pick_default();
    }
    if(mode == 2 && !(why == 5 && step_mode)){ Thread *b = nullptr; if(why == 3 || why == 4 || why == 5) cur->prio = prng.below(1000); // spinning threads lose their priority
        for(auto t : threads) if(t != cur && ready(t) && (!b || t->prio > b->prio)) b = t;
        if(!b && why != 0) for(auto t : threads) if(t != cur && runnable(t) && (!b || t->prio > b->prio)) b = t;
        if(why == 0 && b && b->prio <= cur->prio) return nullptr; return b; }
    vector<Thread *> c; for(auto t : threads) if(t != cur && ready(t)) c.push_back(t);
    if(c.empty() && why != 0) for(auto t : threads) if(t != cur && runnable(t)) c.push_back(t);
    if(c.empty()) return nullptr; return c[prng.below(c.size())];
}
static void record(Thread *to, u64 pc, int why){
    if(want_trace) trace.push_back({cur->id, cur->ev, to->id, pc, (u8)why});
    sched_hash = (sched_hash ^ (u64)(cur->id * 64 + to->id)) * 1099511628211ull; sched_hash = (sched_hash ^ pc) * 1099511628211ull;
    if(why == 0){ n_preempt++; preempt_sites.insert(pc); } else n_forced++;
}
// cur cannot continue (blocked or done)
static void must_switch(u64 pc, int why){
    for(;;){
        cur->ev++; total_ev++;
        Thread *t = pick(why);
        if(t){ record(t, pc, why); switch_to(t); return; }
        if(cur->st == T_RUN) return;
        // nothing is runnable: jump the clock to the next deadline
        Thread *d = nullptr; for(auto x : threads) if(x->st == T_BLOCK && x->timed && (!d || x->deadline < d->deadline)) d = x;
        bool all_done = true; for(auto x : threads) if(x->st != T_DONE) all_done = false;
        if(all_done) finish("exit", (int)cur->exit_code, ""); // the last thread ends the process
        if(!d){ string s; for(auto x : threads){ char b[64]; snprintf(b, sizeof b, "t%d:%s ", x->id, x->st == T_DONE ? "done" : "blocked"); s += b; } finish("deadlock", 0, s); }
        u64 now = sim_now(); if(d->deadline > now) clock_jump += (s64)(d->deadline - now); d->timed_out = true; d->st = T_RUN;
        if(d == cur) return;
    }
}
static SLOW bool point_slow(u64 pc, int why){
    if(why == 0 && mode && n_preempt >= sw_cap){ cur->trig = ~0ull; return false; }
    cur->quiet = why == 3 || why == 4 ? 0 : cur->quiet; cur->since = 0;
    if(why == 0 && mode == 0){ // explicit switch; one that was recorded as forced has the effects of a forced one
        for(size_t i = cur->swi; i < cur->sw.size() && cur->sw[i].first <= cur->ev; i++) if(cur->sw[i].first == cur->ev) why = cur->sw[i].second >> 16;
        if(why){ cur->quiet = 0; if(why == 3) cur->idle = 0; Thread *t = pick(why), *me = cur; if(t){ record(t, pc, why); switch_to(t); } arm(me); return t != nullptr; }
        Thread *t = pick(0); if(t){ record(t, pc, 0); Thread *me = cur; switch_to(t); arm(me); return true; } arm(cur); return false; }
    Thread *t = pick(why); Thread *me = cur;
    if(t){ record(t, pc, why); switch_to(t); }
    arm(me); return t != nullptr;
}
// a scheduling point
static inline void point(u64 pc, bool write){
    cur->ev++; total_ev++;
    if(write){ cur->quiet = 0; cur->idle = 0; changes++; } else { cur->quiet++; cur->idle++; }
    if(threads.size() < 2) { if(cur->quiet > 50000000) finish("livelock", 0, "single thread spins"); return; }
    if(cur->ev >= cur->trig && point_slow(pc, 0)) return;
    if(mode == 2){ if(pct_at < pct_points.size() && total_ev >= pct_points[pct_at]){ pct_at++; cur->prio = pct_points.size() - pct_at; if(point_slow(pc, 0)) return; } }
    else if(mode == 3 && n_preempt < sw_cap){ if((Rng::mix(pc ^ site_seed) % site_mod) == 0 && prng.chance(1, site_mean) && point_slow(pc, 0)) return; }
    if(cur->quiet > spin_lim || cur->idle > 10 * spin_lim){ cur->quiet = 0; cur->idle = 0; point_slow(pc, 3); return; }
    if(++cur->since > fair) point_slow(pc, 5);
}
static SLOW void over_budget(){ finish("livelock", 0, "step budget exhausted"); }

// Shadow states per 16 byte granule: 0 untouched, 1..100 exclusive to thread (id+1), 254 shared and only read since, 255 modified while shared
#define PC ((u64)__builtin_return_address(0))
static SLOW WINAPI void shared_access(u8 *s, u64 addr, bool write, u64 pc, bool sync){
    u8 o = *s;
    // accesses to one's own stack are only interesting once somebody else has seen them
    if(o != 254 && o != 255){ o = write ? 255 : 254; *s = o; shared_first++; }
    else if(write && o == 254){ *s = o = 255; }
    if(sync || gran == 2 || (gran == 1 && o == 255)) point(pc, write);
    else if(write){ cur->quiet = 0; cur->idle = 0; changes++; }
    else if(++cur->quiet > 100000 && threads.size() > 1){ cur->ev++; total_ev++; point_slow(pc, 3); }
}
static inline __attribute__((always_inline)) void access(u64 addr, bool write, u64 pc){
    if(__builtin_expect(++total_steps > step_budget, 0)) over_budget();
    if(addr - WIN_LO >= WIN_HI - WIN_LO) return;
    u8 *s = SH + ((addr - WIN_LO) >> 4); u8 me = (u8)(cur->id + 1);
    if(*s == me){ if(write) cur->quiet = 0; return; }
    if(*s == 0){ *s = me; if(write) cur->quiet = 0; return; }
    shared_access(s, addr, write, pc, false);
}
static void sync_access(u64 addr, bool write, u64 pc){
    if(++total_steps > step_budget) over_budget();
    if(addr - WIN_LO >= WIN_HI - WIN_LO) return;
    u8 *s = SH + ((addr - WIN_LO) >> 4); u8 me = (u8)(cur->id + 1);
    if(*s == 0) *s = me;
    if(*s == me){ cur->ev++; total_ev++; cur->quiet++; if(cur->quiet > 200000 && threads.size() < 2) finish("livelock", 0, "single thread spins"); if(cur->ev >= cur->trig) { if(threads.size() > 1) point_slow(pc, 0); else arm(cur); } else if(++cur->idle > 10 * spin_lim && threads.size() > 1){ cur->idle = 0; point_slow(pc, 3); } return; }
    shared_access(s, addr, write, pc, true);
}
// ------------------------------------------------------------------------------------------------ tsan interface
#define RW(n) \
 static WINAPI void tsan_read##n(u64 a){ access(a, false, PC); } static WINAPI void tsan_write##n(u64 a){ access(a, true, PC); } \
 static WINAPI void tsan_uread##n(u64 a){ access(a, false, PC); access(a + n - 1, false, PC); } static WINAPI void tsan_uwrite##n(u64 a){ access(a, true, PC); access(a + n - 1, true, PC); } \
 static WINAPI void tsan_vread##n(u64 a){ sync_access(a, false, PC); } static WINAPI void tsan_vwrite##n(u64 a){ sync_access(a, true, PC); } \
 static WINAPI void tsan_rw##n(u64 a){ access(a, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range_access(u64 a, u64 n, bool w, u64 pc){ if(!n) return; total_steps += n / 16; u64 e = a + n - 1; for(u64 x = a;;){ access(x, w, pc); x = (x & ~15ull) + 16; if(x > e) break; } }
static WINAPI void *tsan_memcpy(void *d, const void *s, u64 n){ u64 pc = PC; range_access((u64)s, n, false, pc); range_access((u64)d, n, true, pc); return memmove(d, s, n); }
static WINAPI void *tsan_memset(void *d, int v, u64 n){ u64 pc = PC; range_access((u64)d, n, true, pc); return memset(d, v, n); }
static WINAPI void tsan_nop(void){}
#define AT(T, n) \
 static WINAPI T ta##n##_load(volatile T *p, int){ sync_access((u64)p, false, PC); return *p; } \
 static WINAPI void ta##n##_store(volatile T *p, T v, int){ sync_access((u64)p, true, PC); *p = v; } \
 static WINAPI T ta##n##_exchange(volatile T *p, T v, int){ sync_access((u64)p, true, PC); T o = *p; *p = v; return o; } \
 static WINAPI T ta##n##_fetch_add(volatile T *p, T v, int){ sync_access((u64)p, true, PC); T o = *p; *p = o + v; return o; } \
 static WINAPI T ta##n##_fetch_sub(volatile T *p, T v, int){ sync_access((u64)p, true, PC); T o = *p; *p = o - v; return o; } \
 static WINAPI T ta##n##_fetch_and(volatile T *p, T v, int){ sync_access((u64)p, true, PC); T o = *p; *p = o & v; return o; } \
 static WINAPI T ta##n##_fetch_or(volatile T *p, T v, int){ sync_access((u64)p, true, PC); T o = *p; *p = o | v; return o; } \
 static WINAPI T ta##n##_fetch_xor(volatile T *p, T v, int){ sync_access((u64)p, true, PC); T o = *p; *p = o ^ v; return o; } \
 static WINAPI T ta##n##_cas(volatile T *p, T c, T v, int, int){ sync_access((u64)p, *p == c && c != v, PC); T o = *p; if(o == c) *p = v; return o; }
AT(u8, 8) AT(u16, 16) AT(u32, 32) AT(u64, 64)

// LLVM passes an i128 as two registers and returns it in rax:rdx, which no C calling convention describes: small thunk.
extern "C" { u64 hsim_c128_lo, hsim_c128_hi; void hsim_cas128(void); }
extern "C" WINAPI void hsim_cas128_impl(volatile u64 *p, u64 clo, u64 chi, u64 vlo, u64 vhi, u64 pc){
    bool eq = p[0] == clo && p[1] == chi; sync_access((u64)p, eq && (clo != vlo || chi != vhi), pc);
    u64 lo = p[0], hi = p[1]; if(lo == clo && hi == chi){ p[0] = vlo; p[1] = vhi; } hsim_c128_lo = lo; hsim_c128_hi = hi; }
asm(R"(
.text
.globl hsim_cas128
hsim_cas128:
    sub $0x48, %rsp
    mov 0x70(%rsp), %rax
    mov %rax, 0x20(%rsp)
    mov 0x48(%rsp), %rax
    mov %rax, 0x28(%rsp)
    call hsim_cas128_impl
    mov hsim_c128_lo(%rip), %rax
    mov hsim_c128_hi(%rip), %rdx
    add $0x48, %rsp
    ret
)");

// ------------------------------------------------------------------------------------------------ operating system layer
#define INVALID_H ((u64)-1)
static u64 new_obj(Obj o){ objs.push_back(o); return 0x1000 + (objs.size() - 1) * 4; }
static Obj *get_obj(u64 h, int type = 0){ if(h < 0x1000 || (h & 3)) return nullptr; u64 i = (h - 0x1000) / 4; if(i >= objs.size() || objs[i].type == 0) return nullptr; if(type && objs[i].type != type) return nullptr; return &objs[i]; }

// every operating system call goes through here: it is a scheduling point, is logged, and may be hit by a fault
static u64 os_total = 0;
static Fault *os_call(const char *kind, const string &detail, u64 pc){
    total_steps += 20; cur->quiet = 0;
    u32 n = ++oscount[kind];
    if(oslog.size() < (strncmp(kind, "wait", 4) ? 40000u : 2000u)){ char b[64]; snprintf(b, sizeof b, "%s %u t%d ", kind, n, cur->id); oslog.push_back(b + detail); }
    if(threads.size() > 1 && cur->st == T_RUN) point(pc, strncmp(kind, "wait", 4) != 0);
    Fault *hit = nullptr;
    u32 any = ++os_total;
    for(auto &f : faults) if(!f.fired && ((f.kind == kind && f.nth == n) || (f.kind == "any" && f.nth == any) || (f.kind.size() > 3 && f.kind.compare(0, 3, "at:") == 0 && f.nth == 0 && f.kind.substr(3) == detail))){ f.fired = true; hit = &f; break; }
    if(!hit) for(auto &f : faults) if(f.kind.compare(0, 5, "from:") == 0 && n >= f.nth && f.kind.substr(5) == kind){ hit = &f; break; } // everything from the nth call on fails
    if(hit){
        fault_fired[(hit->kind.compare(0, 3, "at:") == 0 ? string(kind) : hit->kind) + ":" + hit->arg.substr(0, hit->arg.find('='))]++;
        if(hit->arg == "crash") finish("crashed", 0, string("simulated crash at ") + kind);
        if(hit->arg.compare(0, 6, "clock=") == 0){ clock_jump += strtoll(hit->arg.c_str() + 6, 0, 10); return nullptr; }
        if(hit->arg.compare(0, 7, "mutate=") == 0){ // path=content : somebody else rewrites a file
            string r = hit->arg.substr(7); size_t e = r.find('='); Node &nd = fs_add(fs, r.substr(0, e)); nd.data = r.substr(e + 1); for(char &ch : nd.data) if(ch == 1) ch = 10; nd.ext = nullptr; nd.ext_size = 0; return nullptr; }
        if(hit->arg.compare(0, 7, "remove=") == 0){ fs.erase(norm_path(hit->arg.substr(7))); return nullptr; }
        if(hit->kind == "any") return nullptr;
    }
    return hit;
}
static u32 host_time_fields(u64 ft, u16 *o){ // SYSTEMTIME
    u64 secs = ft / 10000000; u64 days = secs / 86400; u64 rem = secs % 86400; o[4] = rem / 3600; o[5] = rem / 60 % 60; o[6] = rem % 60; o[7] = ft / 10000 % 1000; o[2] = (days + 1) % 7;
    s64 z = (s64)days - 134774 + 719468; s64 era = z / 146097; u64 doe = z - era * 146097; u64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; s64 y = yoe + era * 400; u64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100); u64 mp = (5 * doy + 2) / 153; u64 d = doy - (153 * mp + 2) / 5 + 1; u64 m = mp < 10 ? mp + 3 : mp - 9; if(m <= 2) y++;
    o[0] = y; o[1] = m; o[3] = d; return 0; }
static u64 fields_to_ft(const u16 *o){ s64 y = o[0]; u64 m = o[1], d = o[3]; if(m <= 2) y--; s64 era = y / 400; u64 yoe = y - era * 400; u64 doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1; u64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; s64 days = era * 146097 + (s64)doe - 719468 + 134774;
    return (((u64)days * 86400 + o[4] * 3600 + o[5] * 60 + o[6]) * 1000 + o[7]) * 10000; }

namespace api {
#define A WINAPI
static A u64 CreateFileA(const char *name, u32 access, u32 share, void *sec, u32 disp, u32 flags, u64 tmpl){
    string nm = name; bool wr = access & 0x40000000;
    Fault *f = os_call(wr ? "openw" : "open", nm, PC);
    if(f){ cur->last_error = f->arg == "sharing" ? 32 : f->arg == "notfound" ? 2 : 5; return INVALID_H; }
    string disp_name; string k = norm_path(nm, &disp_name);
    // "SF=" faults: sticky failures of every open of one path
    for(auto &sf : faults) if(sf.kind == "deny" && norm_path(sf.arg) == k){ sf.fired = true; fault_fired["deny"]++; cur->last_error = 5; return INVALID_H; }
    auto it = fs.find(k);
    if(it != fs.end() && it->second.dir){ cur->last_error = 5; return INVALID_H; }
    bool exists = it != fs.end();
    if(disp == 3 || disp == 5){ if(!exists){ cur->last_error = 2; return INVALID_H; } }
    if(disp == 1 && exists){ cur->last_error = 80; return INVALID_H; }
    if(wr && exists && it->second.readonly){ cur->last_error = 5; return INVALID_H; }
    if(!exists){ size_t s = k.rfind('/'); auto pit = s == string::npos ? fs.end() : fs.find(k.substr(0, s)); if(pit == fs.end() || !pit->second.dir){ cur->last_error = 3; return INVALID_H; } }
    cur->last_error = 0;
    if(wr && (disp == 2 || disp == 5 || !exists)){ Node &n = fs_add(fs, disp_name); if(exists && disp == 2) cur->last_error = 183; n.data.clear(); n.ext = nullptr; n.ext_size = 0; n.written = true; n.mtime = sim_now(); }
    Obj o; o.type = 1; o.path = k; o.wr = wr; if(wr && exists && (disp == 3 || disp == 4)) fs[k].written = true; return new_obj(o);
}
static void wide(const u16 *w, string &o){ while(w && *w) o.push_back((char)*w++); }
static A u64 CreateFileW(const u16 *name, u32 access, u32 share, void *sec, u32 disp, u32 flags, u64 tmpl){ string s; wide(name, s); return CreateFileA(s.c_str(), access, share, sec, disp, flags, tmpl); }
static A s32 CloseHandle(u64 h){ Obj *o = get_obj(h); if(!o) return 0; os_call("close", o->path, PC); o = get_obj(h); if(o->type != 4 && o->type != 7 && o->type != 9) o->type = 0; return 1; }
static A s32 ReadFile(u64 h, void *buf, u32 n, u32 *out, void *ov){
    Obj *o = get_obj(h, 1); if(!o){ if(out) *out = 0; cur->last_error = 6; return 0; }
    string path = o->path; Fault *f = os_call("read", path, PC); o = get_obj(h, 1);
    auto it = fs.find(path); if(it == fs.end()){ if(out) *out = 0; cur->last_error = 2; return 0; }
    Node &nd = it->second; u64 avail = nd.size() > o->pos ? nd.size() - o->pos : 0; u64 k = n < avail ? n : avail;
    if(f){ if(f->arg.compare(0, 6, "short=") == 0){ u64 w = strtoull(f->arg.c_str() + 6, 0, 10); if(k) { w = w % k; k = w; } } else { if(out) *out = 0; cur->last_error = 1117; return 0; } }
    range_access((u64)buf, k, true, PC); memcpy(buf, nd.ptr() + o->pos, k); o->pos += k; if(out) *out = (u32)k; cur->last_error = 0; total_steps += k / 8; return 1;
}
static A s32 WriteFile(u64 h, const void *buf, u32 n, u32 *out, void *ov){
    Obj *o = get_obj(h); if(out) *out = 0; if(!o){ cur->last_error = 6; return 0; }
    if(o->type == 7){ Fault *f = os_call("stdout", "", PC); u32 k = n; if(f){ if(f->arg.compare(0, 6, "short=") == 0){ u64 w = strtoull(f->arg.c_str() + 6, 0, 10); if(k) k = w % k; } else { cur->last_error = 232; return 0; } }
        out_stdout.append((const char *)buf, k); if(out_stdout.size() > (8u << 20)) finish("livelock", 0, "unbounded output"); if(out) *out = k; return 1; }
    if(o->type == 9){ os_call("stderr", "", PC); out_stderr.append((const char *)buf, n); if(out_stderr.size() > (8u << 20)) finish("livelock", 0, "unbounded output"); if(out) *out = n; return 1; }
    if(o->type != 1 || !o->wr){ cur->last_error = 5; return 0; }
    string path = o->path; Fault *f = os_call("write", path, PC); o = get_obj(h, 1); u64 k = n; bool ok = true;
    if(f){ if(f->arg.compare(0, 6, "short=") == 0){ u64 w = strtoull(f->arg.c_str() + 6, 0, 10); if(k) k = w % k; }
        else if(f->arg.compare(0, 5, "torn=") == 0){ u64 w = strtoull(f->arg.c_str() + 5, 0, 10); if(k) k = w % k; ok = false; }
        else if(f->arg.compare(0, 10, "crashtorn=") == 0){ u64 w = strtoull(f->arg.c_str() + 10, 0, 10); if(k) k = w % k; ok = false; }
        else { cur->last_error = f->arg == "full" ? 112 : 1117; return 0; } }
    if(k > disk_left){ k = disk_left; ok = false; cur->last_error = 112; fault_fired["diskfull"]++; }
    auto it = fs.find(path); if(it == fs.end()){ cur->last_error = 6; return 0; }
    Node &nd = it->second; if(nd.ext){ nd.data.assign(nd.ext, nd.ext_size); nd.ext = nullptr; } if(nd.data.size() < o->pos + k) nd.data.resize(o->pos + k); memcpy(&nd.data[o->pos], buf, k); o->pos += k; nd.written = true; nd.mtime = sim_now(); if(disk_left != ~0ull) disk_left -= k;
    if(f && f->arg.compare(0, 10, "crashtorn=") == 0) finish("crashed", 0, "simulated crash inside a write");
    if(out) *out = (u32)k; if(!ok){ if(!cur->last_error) cur->last_error = 112; return 0; } return 1;
}
static A s32 FlushFileBuffers(u64 h){ Obj *o = get_obj(h, 1); Fault *f = os_call("flush", o ? o->path : "", PC); return f ? 0 : 1; }
static A s32 GetFileSizeEx(u64 h, s64 *sz){ Obj *o = get_obj(h, 1); if(!o) return 0; Fault *f = os_call("fileinfo", o->path, PC); if(f){ cur->last_error = 1117; return 0; } *sz = fs[o->path].size(); return 1; }
static A u32 GetFileSize(u64 h, u32 *hi){ s64 s = 0; if(!GetFileSizeEx(h, &s)) return ~0u; if(hi) *hi = s >> 32; return (u32)s; }
static A s32 SetFilePointerEx(u64 h, s64 d, s64 *np, u32 m){ Obj *o = get_obj(h, 1); if(!o) return 0; o->pos = m == 0 ? d : m == 1 ? o->pos + d : fs[o->path].size() + d; if(np) *np = o->pos; return 1; }
static A s32 SetEndOfFile(u64 h){ Obj *o = get_obj(h, 1); if(!o) return 0; Node &n = fs[o->path]; if(n.ext){ n.data.assign(n.ext, n.ext_size); n.ext = 0; } n.data.resize(o->pos); n.written = true; return 1; }
static A s32 DeleteFileA(const char *p){ Fault *f = os_call("delete", p, PC); if(f){ cur->last_error = 5; return 0; } string k = norm_path(p); if(!fs.count(k)){ cur->last_error = 2; return 0; } fs.erase(k); return 1; }
static A s32 MoveFileExA(const char *a, const char *b, u32 fl){ Fault *f = os_call("move", string(a) + " -> " + b, PC); if(f){ cur->last_error = 5; return 0; } string ka = norm_path(a); auto it = fs.find(ka); if(it == fs.end()){ cur->last_error = 2; return 0; } if(fs.count(norm_path(b)) && !(fl & 1)){ cur->last_error = 183; return 0; } Node n = it->second; fs.erase(it); Node &t = fs_add(fs, b); string nm = t.name; t = n; t.name = nm; t.written = true; return 1; }
static A s32 MoveFileA(const char *a, const char *b){ return MoveFileExA(a, b, 0); }
static A s32 CopyFileA(const char *a, const char *b, s32 fail){ Fault *f = os_call("copy", string(a) + " -> " + b, PC); if(f){ cur->last_error = 5; return 0; } auto it = fs.find(norm_path(a)); if(it == fs.end() || it->second.dir){ cur->last_error = 2; return 0; } auto t = fs.find(norm_path(b)); if(t != fs.end() && (fail || t->second.readonly || t->second.dir)){ cur->last_error = fail ? 80 : 5; return 0; }
    string d(it->second.ptr(), it->second.size()); Node &n = fs_add(fs, b); n.data = d; n.ext = nullptr; n.ext_size = 0; n.written = true; n.mtime = it->second.mtime; return 1; }
static A s32 CreateDirectoryA(const char *p, void *sec){ Fault *f = os_call("mkdir", p, PC); if(f){ cur->last_error = 5; return 0; } string d; string k = norm_path(p, &d); if(fs.count(k)){ cur->last_error = 183; return 0; } fs_mkdirs(fs, d); return 1; }
static A s32 RemoveDirectoryA(const char *p){ os_call("rmdir", p, PC); string k = norm_path(p); auto it = fs.find(k); if(it == fs.end() || !it->second.dir){ cur->last_error = 3; return 0; } auto nx = fs.lower_bound(k + "/"); if(nx != fs.end() && nx->first.compare(0, k.size() + 1, k + "/") == 0){ cur->last_error = 145; return 0; } fs.erase(it); return 1; }
static A s32 GetFileTime(u64 h, u64 *c, u64 *a, u64 *w){ Obj *o = get_obj(h, 1); if(!o){ cur->last_error = 6; return 0; } string path = o->path; Fault *f = os_call("fileinfo", path, PC); if(f){ cur->last_error = 1117; return 0; } u64 t = fs[path].mtime; if(c) *c = t; if(a) *a = t; if(w) *w = t; return 1; }
static A s32 SetFileTime(u64 h, u64 *c, u64 *a, u64 *w){ Obj *o = get_obj(h, 1); if(!o) return 0; if(w) fs[o->path].mtime = *w; return 1; }
static A s32 CompareFileTime(const u64 *a, const u64 *b){ return *a < *b ? -1 : *a > *b; }
static A s32 GetFileAttributesExA(const char *p, int lvl, u32 *d){ Fault *f = os_call("attr", p, PC); if(f){ cur->last_error = 5; return 0; } auto it = fs.find(norm_path(p)); if(it == fs.end()){ cur->last_error = 2; return 0; } u64 t = it->second.mtime; d[0] = it->second.dir ? 0x10 : 0x20; for(int i = 1; i < 7; i += 2){ d[i] = (u32)t; d[i + 1] = (u32)(t >> 32); } d[7] = it->second.size() >> 32; d[8] = (u32)it->second.size(); return 1; }
static A s32 SetFileAttributesA(const char *p, u32 at){ Fault *f = os_call("setattr", p, PC); if(f){ cur->last_error = 5; return 0; } auto it = fs.find(norm_path(p)); if(it == fs.end()){ cur->last_error = 2; return 0; } it->second.readonly = at & 1; return 1; }
static A u32 SetFilePointer(u64 h, s32 lo, s32 *hi, u32 m){ Obj *o = get_obj(h, 1); if(!o) return ~0u; s64 d = hi ? (s64)((u64)(u32)lo | (u64)(u32)*hi << 32) : lo; o->pos = m == 0 ? d : m == 1 ? o->pos + d : fs[o->path].size() + d; if(hi) *hi = o->pos >> 32; cur->last_error = 0; return (u32)o->pos; }
static A u32 GetTempPathA(u32 n, char *b){ const char *t = "C:\\temp\\"; string d; norm_path("C:/temp", &d); fs_mkdirs(fs, d); if(n < 9) return 9; strcpy(b, t); return 8; }
static A u32 GetTempFileNameA(const char *dir, const char *pre, u32 uniq, char *out){ Fault *f = os_call("openw", "temporary file", PC); if(f){ cur->last_error = 5; return 0; } static u32 k = 1; char b[300]; snprintf(b, sizeof b, "%s%s%.3s%X.tmp", dir, dir[0] && dir[strlen(dir) - 1] == '\\' ? "" : "\\", pre ? pre : "", uniq ? uniq : k++); strcpy(out, b); if(!uniq){ Node &n = fs_add(fs, b); n.written = true; } return uniq ? uniq : k; }
static A u32 GetFullPathNameA(const char *p, u32 n, char *b, char **part){ string d; norm_path(p, &d); for(char &c : d) if(c == '/') c = '\\'; if(n <= d.size()) return (u32)d.size() + 1; strcpy(b, d.c_str()); if(part){ char *q = strrchr(b, '\\'); *part = q ? q + 1 : b; } return (u32)d.size(); }
static A void OutputDebugStringA(const char *s){}
static A u32 GetEnvironmentVariableA(const char *n, char *b, u32 k){ cur->last_error = 203; return 0; }
struct FileInfo { u32 attr; u32 ct[2], at[2], wt[2]; u32 vol, szhi, szlo, links, idxhi, idxlo; };
static A s32 GetFileInformationByHandle(u64 h, FileInfo *fi){ Obj *o = get_obj(h, 1); if(!o){ cur->last_error = 6; return 0; } string path = o->path; Fault *f = os_call("fileinfo", path, PC); if(f){ cur->last_error = 1117; return 0; }
    auto it = fs.find(path); if(it == fs.end()){ cur->last_error = 2; return 0; } memset(fi, 0, sizeof *fi); fi->attr = 0x20; u64 t = it->second.mtime; fi->ct[0] = fi->at[0] = fi->wt[0] = (u32)t; fi->ct[1] = fi->at[1] = fi->wt[1] = (u32)(t >> 32); fi->szlo = (u32)it->second.size(); fi->szhi = (u32)(it->second.size() >> 32); fi->links = 1; return 1; }
static A u32 GetFileAttributesA(const char *p){ Fault *f = os_call("attr", p, PC); if(f){ cur->last_error = 5; return ~0u; } auto it = fs.find(norm_path(p)); if(it == fs.end()){ cur->last_error = 2; return ~0u; } return it->second.dir ? 0x10 : 0x20; }
struct FindData { u32 attr; u32 t[6]; u32 szhi, szlo; u32 r0, r1; char name[260]; char alt[14]; };
static bool wild(const char *p, const char *s){ for(; *p; p++, s++){ if(*p == '*'){ while(*p == '*') p++; if(!*p) return true; for(; *s; s++) if(wild(p, s)) return true; return false; } if(!*s) return false; if(*p != '?' && *p != *s) return false; } return !*s; }
static void fill_find(Obj *o, FindData *d){ memset(d, 0, sizeof *d); auto &e = o->list[o->at++]; d->attr = (!e.second || e.second->dir) ? 0x10 : 0x20; snprintf(d->name, sizeof d->name, "%s", e.first.c_str()); if(e.second && !e.second->dir){ d->szlo = (u32)e.second->size(); d->szhi = e.second->size() >> 32; u64 t = e.second->mtime; for(int i = 0; i < 6; i += 2){ d->t[i] = (u32)t; d->t[i + 1] = (u32)(t >> 32); } } total_steps += 20; }
static A u64 FindFirstFileA(const char *pat, FindData *d){ Fault *f = os_call("findfirst", pat, PC); if(f){ cur->last_error = 5; return INVALID_H; }
    string p = norm_path(pat); size_t s = p.rfind('/'); if(s == string::npos) return INVALID_H; string dir = p.substr(0, s), w = p.substr(s + 1); auto dit = fs.find(dir);
    if(dit == fs.end() || !dit->second.dir){ cur->last_error = 3; return INVALID_H; }
    Obj o; o.type = 3; o.path = dir; if(w == "*"){ o.list.push_back({".", nullptr}); o.list.push_back({"..", nullptr}); }
    vector<std::pair<string, Node *>> l; string pre = dir + "/";
    for(auto it = fs.lower_bound(pre); it != fs.end() && it->first.compare(0, pre.size(), pre) == 0;){ string rest = it->first.substr(pre.size()); size_t sl = rest.find('/'); if(sl != string::npos){ it = fs.lower_bound(pre + rest.substr(0, sl) + "0"); continue; } if(wild(w.c_str(), rest.c_str())) l.push_back({it->second.name, &it->second}); ++it; }
    if(enum_seed){ Rng r{enum_seed ^ std::hash<string>()(dir)}; for(size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]); }
    for(auto &x : l) o.list.push_back(x); if(o.list.empty()){ cur->last_error = 2; return INVALID_H; }
    fill_find(&o, d); return new_obj(o); }
static A s32 FindNextFileA(u64 h, FindData *d){ Obj *o = get_obj(h, 3); if(!o) return 0; if(o->at >= o->list.size()){ cur->last_error = 18; return 0; }
    u32 n = ++oscount["findnext"]; for(auto &f : faults) if(!f.fired && f.kind == "findnext" && f.nth == n){ f.fired = true; fault_fired["findnext"]++; cur->last_error = 5; return 0; }
    fill_find(o, d); return 1; }
static A s32 FindClose(u64 h){ Obj *o = get_obj(h, 3); if(!o) return 0; o->type = 0; return 1; }
static A u32 GetCurrentDirectoryA(u32 n, char *b){ string w = g_cwd; for(char &c : w) if(c == '/') c = '\\'; os_call("getcwd", "", PC); if(n < w.size() + 1) return (u32)w.size() + 1; strcpy(b, w.c_str()); return (u32)w.size(); }
static A u32 GetModuleFileNameA(u64 m, char *b, u32 n){ u32 k = (u32)modname.size(); if(n <= k){ if(n){ memcpy(b, modname.c_str(), n - 1); b[n - 1] = 0; } cur->last_error = 122; return n; } strcpy(b, modname.c_str()); return k; }
static A u64 GetStdHandle(u32 n){ return 0x1000 + ((n == (u32)-10) ? 4 : n == (u32)-12 ? 8 : 0); }
static A char *GetCommandLineA(void){ return (char *)cmdline.c_str(); }
static A u32 GetLastError(void){ return cur->last_error; }
static A void SetLastError(u32 e){ cur->last_error = e; }
static A void ExitProcess(u32 c){ finish("exit", c, ""); }
static A s32 TerminateProcess(u64 h, u32 c){ finish("exit", c, ""); }
struct SysInfo { u16 arch, r; u32 page; u64 lo, hi, mask; u32 n, type, gran; u16 lvl, rev; };
static A void GetSystemInfo(SysInfo *s){ memset(s, 0, sizeof *s); s->arch = 9; s->page = 4096; s->lo = 0x10000; s->hi = 0x7ffffffeffffull; s->mask = (1ull << nproc) - 1; s->n = nproc; s->type = 8664; s->gran = 65536; }
static A s32 IsDebuggerPresent(void){ return 0; }
static void clock_call(){ total_steps += 5; clock_calls++; for(auto &f : faults) if(!f.fired && f.kind == "clock" && f.nth == clock_calls){ f.fired = true; clock_jump += strtoll(f.arg.c_str(), 0, 10); fault_fired["clock:jump"]++; } }
static A s32 QueryPerformanceCounter(s64 *p){ clock_call(); *p = (s64)(sim_now() & 0xfffffffffffffull); return 1; }
static A s32 QueryPerformanceFrequency(s64 *p){ *p = 10000000; return 1; }
static A void GetSystemTime(u16 *o){ clock_call(); host_time_fields(sim_now(), o); }
static A void GetLocalTime(u16 *o){ clock_call(); host_time_fields(sim_now(), o); }
static A void GetSystemTimeAsFileTime(u64 *o){ clock_call(); *o = sim_now(); }
static A s32 SystemTimeToFileTime(const u16 *o, u64 *ft){ u64 v = fields_to_ft(o); memcpy(ft, &v, 8); return 1; }
static A u64 GetTickCount64(void){ clock_call(); return sim_now() / 10000; }
static A u32 GetTickCount(void){ return (u32)GetTickCount64(); }
static u64 knob_cap = 0;
static A u64 sim_knob(const char *name, u64 v){ return knob_cap && v > knob_cap ? knob_cap : v; }
static A u64 sim_rdtsc(void){ clock_call(); return sim_now() * 300 + Rng::mix(total_steps) % 300; }

// ---- memory
static u64 region_alloc(u64 size, int prot){
    u64 a; size = (size + 0xffff) & ~0xffffull;
    if(mem_seed){ alloc_at += (1 + addr_rng.below(256)) << 16; }
    a = alloc_at; alloc_at += size + 0x20000; if(alloc_at >= WIN_HI) return 0;
    void *m = mmap((void *)a, size, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if(m == MAP_FAILED) return 0; n_allocs++; return a; }
struct Region { u64 base, size; }; static std::map<u64, Region> regions; static vector<u64> addr_pool;
static u64 reserve_random(u64 size){
    // random placement: choose one of 256 slots of the window, so that relative order of allocations varies with the seed
    size = (size + 0xffff) & ~0xffffull;
    if(mem_seed) for(int tries = 0; tries < 64; tries++){ u64 a = 0x20000000000ull + (addr_rng.below((WIN_HI - 0x20000000000ull - size - (1ull << 30)) >> 16) << 16);
        bool ok = true; auto it = regions.lower_bound(a); if(it != regions.end() && it->first < a + size + 0x10000) ok = false; if(it != regions.begin()){ --it; if(it->first + it->second.size + 0x10000 > a) ok = false; } if(!ok) continue;
        void *m = mmap((void *)a, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if(m == MAP_FAILED) return 0; regions[a] = {a, size}; return a; }
    u64 a = region_alloc(size, PROT_NONE); if(a) regions[a] = {a, size}; return a; }

static A u64 VirtualAlloc(u64 addr, u64 size, u32 type, u32 prot){
    Fault *f = os_call(type & 0x2000 ? "reserve" : "commit", std::to_string(size), PC); if(f){ cur->last_error = 8; return 0; }
    if(!size) { cur->last_error = 87; return 0; }
    int pr = (prot & 0xf0) ? PROT_READ | PROT_WRITE | PROT_EXEC : PROT_READ | PROT_WRITE;
    u64 base = addr;
    if((type & 0x2000) || !addr){ if(addr){ cur->last_error = 487; return 0; } base = reserve_random(size); if(!base){ cur->last_error = 8; return 0; } }
    if(type & 0x1000){ u64 a = base & ~4095ull, e = (base + size + 4095) & ~4095ull; auto it = regions.upper_bound(a); if(it == regions.begin()){ cur->last_error = 487; return 0; } --it; if(e > it->first + ((it->second.size + 4095) & ~4095ull)){ cur->last_error = 487; return 0; }
        if(mem_limit && committed + (e - a) > mem_limit){ fault_fired["commit:limit"]++; cur->last_error = 1455; return 0; } committed += e - a; if(committed > (6ull << 30)) finish("runaway", 0, "more than 6 GB committed");
        if(mprotect((void *)a, e - a, pr)){ cur->last_error = 8; return 0; } return a == (base & ~4095ull) ? base & ~4095ull : a; }
    return base; }
static A s32 VirtualFree(u64 addr, u64 size, u32 type){ os_call("vfree", "", PC); auto it = regions.find(addr); if(it == regions.end()){ cur->last_error = 487; return 0; }
    if(type & 0x8000){ u64 s = it->second.size; mmap((void *)addr, s, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); freed.push_back({addr, addr + s}); regions[addr].size = s; /* address space is never reused */ }
    else mprotect((void *)addr, size, PROT_NONE); return 1; }
static A s32 VirtualProtect(u64 a, u64 n, u32 p, u32 *o){ if(o) *o = 4; int pr = (p & 0xf0) ? 7 : p == 1 ? 0 : p == 2 ? 1 : 3; mprotect((void *)(a & ~4095ull), ((a + n + 4095) & ~4095ull) - (a & ~4095ull), pr); return 1; }
static u64 heap_cur = 0, heap_end = 0;
static u64 heap_alloc(u64 n, bool zero){
    u64 need = (n + 16 + 31) & ~15ull; if(need > (1ull << 33)) return 0;
    if(heap_cur + need > heap_end){ u64 sz = need + (1 << 20); u64 a = region_alloc(sz, PROT_READ | PROT_WRITE); if(!a) return 0; heap_cur = a; heap_end = a + ((sz + 0xffff) & ~0xffffull); }
    u64 p = heap_cur + 16; ((u64 *)p)[-1] = n; heap_cur += need;
    if(!zero && poison && n <= (16 << 20)) memset((void *)p, 0xA5 ^ (u8)mem_seed, n);
    return p; }
static A u64 GlobalAlloc(u32 fl, u64 n){ Fault *f = os_call("galloc", std::to_string(n), PC); if(f){ cur->last_error = 8; return 0; } return heap_alloc(n, fl & 0x40); }
static A u64 GlobalFree(u64 p){ os_call("gfree", "", PC); return 0; }
static A u64 ms_malloc(u64 n){ Fault *f = os_call("malloc", std::to_string(n), PC); if(f) return 0; return heap_alloc(n, false); }
static A u64 ms_calloc(u64 a, u64 b){ Fault *f = os_call("malloc", std::to_string(a * b), PC); if(f) return 0; return heap_alloc(a * b, true); }
static A u64 ms_realloc(u64 p, u64 n){ Fault *f = os_call("malloc", std::to_string(n), PC); if(f) return 0; u64 q = heap_alloc(n, false); if(p && q){ u64 o = ((u64 *)p)[-1]; memcpy((void *)q, (void *)p, o < n ? o : n); } return q; }
static A void ms_free(u64 p){ if(p){ u64 n = ((u64 *)p)[-1]; os_call("free", "", PC); if(poison && n <= (16 << 20)) memset((void *)p, 0xDD, n); } }
static A s32 MulDiv(s32 a, s32 b, s32 c){ return c ? (s32)(((s64)a * b + (c > 0 ? c / 2 : -c / 2)) / c) : -1; }
static A u64 GetProcessHeap(void){ return 0x7770; }
static A u64 HeapAlloc(u64 h, u32 fl, u64 n){ Fault *f = os_call("malloc", std::to_string(n), PC); if(f) return 0; return heap_alloc(n, fl & 8); }
static A s32 HeapFree(u64 h, u32 fl, u64 p){ ms_free(p); return 1; }

// ---- threads and synchronisation
static void thread_entry(){
    Thread *t = cur; arm(t);
    u32 r = step_mode ? hsim_step_call(t->start, t->param) : ((u32 (WINAPI *)(void *))t->start)(t->param);
    t->exit_code = r; t->st = T_DONE; if(Obj *o = get_obj(t->hobj)) o->signaled = true;
    for(auto x : threads) if(x->st == T_BLOCK && x->wait_obj == t->hobj){ x->st = T_RUN; }
    must_switch(0x11, 2); simerror("finished thread resumed"); }
static u8 *make_teb(){ u8 *p = (u8 *)mmap((void *)region_alloc(65536, PROT_READ | PROT_WRITE), 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); return p; }
static void setup_thread_tls(Thread *t);
static Thread *spawn(void *start, void *param, u64 stack){
    Thread *t = new Thread; t->id = (int)threads.size(); t->start = start; t->param = param; if(t->id >= 96) simerror("too many threads");
    u64 a = region_alloc(stack + 0x10000, PROT_READ | PROT_WRITE); if(!a) simerror("stack"); mprotect((void *)a, 0x10000, PROT_NONE); t->stack_lo = (u8 *)a; t->stack_hi = (u8 *)(a + stack + 0x10000);
    if(poison) memset((void *)(t->stack_hi - 0x20000), 0x5A ^ (u8)mem_seed, 0x20000);
    u64 *sp = (u64 *)(t->stack_hi - 264); sp[0] = 0; *--sp = (u64)thread_entry; for(int i = 0; i < 6; i++) *--sp = 0; *--sp = 0x37f; *--sp = 0x1f80; t->sp = sp; t->prio = 1000 + prng.below(1000); setup_thread_tls(t); return t; }
static std::map<int, vector<std::pair<u64,int>>> sw_plan;
static A u64 CreateThread(void *sec, u64 stack, void *start, void *param, u32 flags, u32 *id){
    Fault *f = os_call("thread", "", PC); if(f){ cur->last_error = 8; return 0; }
    Thread *t = spawn(start, param, stack ? (stack + 0xffff) & ~0xffffull : 1 << 20); t->sw = sw_plan[t->id]; threads.push_back(t);
    Obj o; o.type = 4; o.tid = t->id; t->hobj = new_obj(o); if(id) *id = 100 + t->id * 4;
    point(PC, true); return t->hobj; }
static A u64 beginthreadex(void *sec, u32 stack, void *start, void *param, u32 flags, u32 *id){ return CreateThread(sec, stack, start, param, flags, id); }
static A void ExitThread(u32 c){ cur->exit_code = c; cur->st = T_DONE; if(Obj *o = get_obj(cur->hobj)) o->signaled = true; for(auto x : threads) if(x->st == T_BLOCK && x->wait_obj == cur->hobj) x->st = T_RUN; must_switch(PC, 2); }
static A u32 GetCurrentThreadId(void){ return 100 + cur->id * 4; }
static A u32 GetCurrentProcessId(void){ return 4242; }
static A u64 GetCurrentThread(void){ return (u64)-2; }
static A u64 GetCurrentProcess(void){ return (u64)-1; }
static A s32 GetExitCodeThread(u64 h, u32 *c){ Obj *o = get_obj(h, 4); if(!o) return 0; *c = threads[o->tid]->st == T_DONE ? (u32)threads[o->tid]->exit_code : 259; return 1; }
static A u64 CreateEventA(void *s, s32 manual, s32 init, const char *n){ Fault *f = os_call("event", "", PC); if(f){ cur->last_error = 8; return 0; } Obj o; o.type = 2; o.manual = manual; o.signaled = init; return new_obj(o); }
static A u64 CreateSemaphoreA(void *s, s32 init, s32 mx, const char *n){ Fault *f = os_call("event", "", PC); if(f){ cur->last_error = 8; return 0; } Obj o; o.type = 6; o.count = init; o.maxc = mx; return new_obj(o); }
static A u64 CreateMutexA(void *s, s32 own, const char *n){ Obj o; o.type = 8; o.owner = own ? cur->id : -1; o.depth = own; return new_obj(o); }
static void wake(u64 h, bool all){ Obj *o = get_obj(h);
    vector<Thread *> w; for(auto t : threads) if(t->st == T_BLOCK && t->wait_obj == h) w.push_back(t);
    if(w.empty()) return;
    if(all){ for(auto t : w){ t->st = T_RUN; t->wait_obj = 0; t->timed_out = false; } return; }
    Thread *t = w[mode ? prng.below(w.size()) : 0]; (void)o; t->st = T_RUN; t->wait_obj = 0; t->timed_out = false; }
static A s32 SetEvent(u64 h){ Obj *o = get_obj(h, 2); if(!o) return 0; os_call("setevent", "", PC); o = get_obj(h, 2);
    bool waiters = false; for(auto t : threads) if(t->st == T_BLOCK && t->wait_obj == h) waiters = true;
    if(o->manual){ o->signaled = true; wake(h, true); } else if(waiters) wake(h, false); else o->signaled = true; return 1; }
static A s32 ResetEvent(u64 h){ Obj *o = get_obj(h, 2); if(!o) return 0; os_call("resetevent", "", PC); get_obj(h, 2)->signaled = false; return 1; }
static A s32 ReleaseSemaphore(u64 h, s32 n, s32 *prev){ Obj *o = get_obj(h, 6); if(!o) return 0; os_call("setevent", "", PC); o = get_obj(h, 6); if(prev) *prev = o->count; o->count += n; wake(h, true); return 1; }
static A s32 ReleaseMutex(u64 h){ Obj *o = get_obj(h, 8); if(!o) return 0; os_call("setevent", "", PC); o = get_obj(h, 8); if(--o->depth <= 0){ o->owner = -1; wake(h, true); } return 1; }
static bool try_take(u64 h){ Obj *o = get_obj(h); if(!o) return true;
    if(o->type == 2){ if(!o->signaled) return false; if(!o->manual) o->signaled = false; return true; }
    if(o->type == 4) return threads[o->tid]->st == T_DONE;
    if(o->type == 6){ if(o->count <= 0) return false; o->count--; return true; }
    if(o->type == 8){ if(o->owner >= 0 && o->owner != cur->id) return false; o->owner = cur->id; o->depth++; return true; }
    return true; }
static A u32 WaitForSingleObject(u64 h, u32 ms){
    Obj *o = get_obj(h); if(!o){ cur->last_error = 6; return ~0u; }
    os_call("wait", "", PC); u64 deadline = sim_now() + (u64)ms * 10000; bool pulsed = false;
    for(;;){
        o = get_obj(h);
        if(pulsed && (o->type == 2)) return 0;            // released by SetEvent, even if it was reset meanwhile
        if(try_take(h)) return 0;
        if(ms == 0) return 258;
        cur->st = T_BLOCK; cur->wait_obj = h; cur->timed = ms != ~0u; cur->deadline = deadline; cur->timed_out = false;
        must_switch(PC, 1);
        if(cur->timed_out){ cur->wait_obj = 0; return 258; }
        pulsed = true; } }
static A u32 WaitForMultipleObjects(u32 n, u64 *hs, s32 all, u32 ms){ u32 r = 0; if(all){ for(u32 i = 0; i < n; i++){ u32 x = WaitForSingleObject(hs[i], ms); if(x) r = x; } return r; }
    for(u64 spins = 0;; spins++){ for(u32 i = 0; i < n; i++) if(try_take(hs[i])) return i; if(ms == 0) return 258; cur->ev++; total_ev++; point_slow(PC, 4); total_steps += 100; if(ms != ~0u && spins > ms) return 258; } }
static A void Sleep(u32 ms){ os_call("sleep", "", PC); if(threads.size() < 2){ clock_jump += (s64)ms * 10000; return; } cur->st = T_BLOCK; cur->wait_obj = 1; cur->timed = true; cur->deadline = sim_now() + (u64)ms * 10000 + 1; must_switch(PC, 1); cur->wait_obj = 0; }
static A u32 SleepEx(u32 ms, s32 al){ Sleep(ms); return 0; }
static A s32 SwitchToThread(void){ cur->ev++; total_ev++; total_steps += 10; point_slow(PC, 4); return 1; }
static A void sim_pause(void){ total_steps += 10; if(total_steps > step_budget) over_budget(); if(threads.size() < 2){ if(++cur->quiet > 1000000) finish("livelock", 0, "single thread spins on pause"); return; } cur->ev++; total_ev++; point_slow(PC, 4); }
static A u32 TlsAlloc(void){ static u32 n; return n++; }
static A u64 TlsGetValue(u32 i){ return cur->tls[i & 63]; }
static A s32 TlsSetValue(u32 i, u64 v){ cur->tls[i & 63] = v; return 1; }
// critical sections and slim locks: owner kept inside the object's first words
static A void InitializeCriticalSection(s64 *c){ memset(c, 0, 40); }
static A void EnterCriticalSection(s64 *c){ for(;;){ point(PC, true); if(c[0] == 0 || c[0] == cur->id + 1){ c[0] = cur->id + 1; c[1]++; return; } cur->ev++; total_ev++; point_slow(PC, 4); total_steps += 20; if(total_steps > step_budget) over_budget(); } }
static A void LeaveCriticalSection(s64 *c){ if(--c[1] == 0) c[0] = 0; point(PC, true); }
static A s32 TryEnterCriticalSection(s64 *c){ point(PC, true); if(c[0] == 0 || c[0] == cur->id + 1){ c[0] = cur->id + 1; c[1]++; return 1; } return 0; }
static A void DeleteCriticalSection(s64 *c){}
static A void AcquireSRWLockExclusive(s64 *c){ for(;;){ point(PC, true); if(*c == 0){ *c = -1; return; } cur->ev++; total_ev++; point_slow(PC, 4); total_steps += 20; if(total_steps > step_budget) over_budget(); } }
static A void ReleaseSRWLockExclusive(s64 *c){ *c = 0; point(PC, true); }
static A void AcquireSRWLockShared(s64 *c){ for(;;){ point(PC, true); if(*c >= 0){ ++*c; return; } cur->ev++; total_ev++; point_slow(PC, 4); total_steps += 20; if(total_steps > step_budget) over_budget(); } }
static A void ReleaseSRWLockShared(s64 *c){ --*c; point(PC, true); }

// ---- registry
static u64 reg_lookup(u64 key, const char *sub){ string p = sub; Obj o; o.type = 5;
    if(Obj *k = get_obj(key, 5)) p = k->path + "\\" + p; string l = lower(p); static const string root = "software\\microsoft\\windows kits\\installed roots";
    if(l == root && !kits_root.empty()){ o.path = root; return new_obj(o); }
    for(auto &v : sdk_versions){ if(l == root + "\\" + v || (l == root + "\\" + v + "\\installed options" && sdk_opt[v] != "nokey")){ o.path = l; return new_obj(o); } }
    return 0; }
static A u32 RegOpenKeyExA(u64 key, const char *sub, u32 opt, u32 want, u64 *out){ Fault *f = os_call("regopen", sub, PC); if(f) return 5; u64 h = reg_lookup(key, sub); if(!h) return 2; *out = h; return 0; }
static A u32 RegQueryValueExA(u64 key, const char *name, u32 *r, u32 *type, u8 *data, u32 *len){ Fault *f = os_call("regquery", name, PC); if(f) return 5; Obj *k = get_obj(key, 5); if(!k) return 6; string n = lower(name);
    if(n == "kitsroot10"){ string v = kits_root + string(kits_zeros, 0); if(v[0] == '-') return 2; u32 need = (u32)v.size(); if(*len < need){ *len = need; return 234; } memcpy(data, v.c_str(), need); *len = need; if(type) *type = 1; return 0; }
    if(n == "optionid.desktopcppx64" && k->path.size() > 17 && k->path.substr(k->path.size() - 17) == "installed options"){ string ver = k->path.substr(0, k->path.size() - 18); ver = ver.substr(ver.rfind('\\') + 1); string st = sdk_opt[ver]; if(st == "none") return 2; u32 v = st == "0" ? 0 : 1; if(*len < 4){ *len = 4; return 234; } memcpy(data, &v, 4); *len = 4; return 0; }
    return 2; }
static A u32 RegEnumKeyExA(u64 key, u32 i, char *name, u32 *len, u32 *r, char *c, u32 *cl, void *t){ Fault *f = os_call("regenum", "", PC); if(f) return 5; Obj *k = get_obj(key, 5); if(!k) return 6; if(i >= sdk_versions.size()) return 259; string v = sdk_versions[i]; if(*len < v.size() + 1) return 234; strcpy(name, v.c_str()); *len = (u32)v.size(); return 0; }
static A u32 RegCloseKey(u64 key){ Obj *k = get_obj(key, 5); if(k) k->type = 0; return 0; }

// ---- C runtime
static A double ms_strtod(const char *s, char **e){ return strtod(s, e); }
static A s32 ms_system(const char *c){ os_call("system", c ? c : "", PC); return 0; }
static A void *ms_memcpy(void *d, const void *s, u64 n){ return memmove(d, s, n); }
static A void *ms_memset(void *d, int v, u64 n){ return memset(d, v, n); }
static A s32 ms_memcmp(const void *a, const void *b, u64 n){ return memcmp(a, b, n); }
static A u64 ms_strlen(const char *s){ return strlen(s); }
static A s32 ms_strcmp(const char *a, const char *b){ return strcmp(a, b); }
static A void ms_exit(u32 c){ finish("exit", c, ""); }
static A s32 ms_puts(const char *s){ out_stdout += s; out_stdout += "\n"; return 1; }
static A s32 ms_putchar(int c){ out_stdout.push_back((char)c); return c; }
static string ms_format(const char *f, u64 *va){ string o; for(; *f; f++){ if(*f != '%'){ o.push_back(*f); continue; } string spec = "%"; f++; bool l64 = false;
        while(*f && strchr("-+ #0123456789.*", *f)){ if(*f == '*'){ spec += std::to_string((int)*va++); } else spec.push_back(*f); f++; }
        for(;;){ if(f[0] == 'l' && f[1] == 'l'){ l64 = true; f += 2; } else if(f[0] == 'l' || f[0] == 'h') f++; else if(f[0] == 'z' || f[0] == 'j' || f[0] == 't'){ l64 = true; f++; } else if(f[0] == 'I' && f[1] == '6' && f[2] == '4'){ l64 = true; f += 3; } else break; }
        char c = *f, b[512]; if(!c) break;
        if(c == '%'){ o.push_back('%'); continue; }
        if(c == 's'){ spec += "s"; const char *s = (const char *)*va++; snprintf(b, sizeof b, spec.c_str(), s ? s : "(null)"); o += b; }
        else if(strchr("eEfFgGaA", c)){ double d; memcpy(&d, va++, 8); spec.push_back(c); snprintf(b, sizeof b, spec.c_str(), d); o += b; }
        else if(c == 'p'){ snprintf(b, sizeof b, "%016llX", (unsigned long long)*va++); o += b; }
        else { u64 v = *va++; if(!l64) v = (c == 'd' || c == 'i') ? (u64)(s64)(s32)v : (u32)v; if(c == 'c'){ o.push_back((char)v); continue; } spec += "ll"; spec.push_back(c); snprintf(b, sizeof b, spec.c_str(), (unsigned long long)v); o += b; } }
    return o; }
static A u64 acrt_iob(u32 i){ return 0x9000 + i; }
static A s32 stdio_vfprintf(u64 opt, u64 fl, const char *f, u64 loc, u64 *va){ string s = ms_format(f, va); out_stdout += s; return (s32)s.size(); }
static A s32 stdio_vsprintf(u64 opt, char *buf, u64 n, const char *f, u64 loc, u64 *va){ string s = ms_format(f, va); if(buf && n){ u64 k = s.size() < n - 1 ? s.size() : n - 1; memcpy(buf, s.c_str(), k); buf[k] = 0; } return (s32)s.size(); }
static A s32 ret0(void){ return 0; }
static A s32 ret1(void){ return 1; }
static u64 main_image;
static A u64 GetModuleHandleA(const char *n){ return n ? 0x7fff0000 : main_image ? main_image : 0x7fff0000; }
static A u64 GetModuleHandleW(const u16 *n){ return GetModuleHandleA((const char *)n); }
static A u64 GetProcAddress(u64 m, const char *n){ return 0; }
static u64 main_argc_, main_argv_[64], main_envp_[1]; static u64 argvp = (u64)main_argv_; static u32 argc32; static u64 envpp = (u64)main_envp_;
static u16 *widen(const string &v){ u16 *w = (u16 *)heap_alloc(v.size() * 2 + 4, true); if(w) for(size_t i = 0; i < v.size(); i++) w[i] = (u8)v[i]; return w; }
static A u16 *GetCommandLineW(void){ static u16 *w; if(!w) w = widen(cmdline); return w; }
static A char *GetEnvironmentStringsA(void){ char *e = (char *)heap_alloc(envstrings.size() + 2, true); memcpy(e, envstrings.data(), envstrings.size()); return e; }
static A u16 *GetEnvironmentStringsW(void){ return widen(envstrings + string(1, '\0')); }
static void startup_info(u8 *p){ memset(p, 0xcc, 104); u32 cb = 104; memcpy(p, &cb, 4); u32 fl = startup_flags; memcpy(p + 60, &fl, 4); u16 sw = startup_show; memcpy(p + 64, &sw, 2); }
static A void GetStartupInfoA(u8 *p){ startup_info(p); }
static A void GetStartupInfoW(u8 *p){ startup_info(p); }
static u64 wargvp = 0; static A u64 *p_wargv(void){ return &wargvp; }
static A u32 *p_argc(void){ return &argc32; }
static A u64 *p_argv(void){ return &argvp; }
#undef A
}
extern "C" void hsim_chkstk(void);
asm(".text\n.globl hsim_chkstk\nhsim_chkstk:\n ret\n");

struct Sym { const char *n; void *p; };
#define S(x) {#x, (void *)api::x}
#define TS(n) {"__tsan_read" #n, (void *)tsan_read##n}, {"__tsan_write" #n, (void *)tsan_write##n}, {"__tsan_unaligned_read" #n, (void *)tsan_uread##n}, {"__tsan_unaligned_write" #n, (void *)tsan_uwrite##n}, \
  {"__tsan_volatile_read" #n, (void *)tsan_vread##n}, {"__tsan_volatile_write" #n, (void *)tsan_vwrite##n}, {"__tsan_unaligned_volatile_read" #n, (void *)tsan_vread##n}, {"__tsan_unaligned_volatile_write" #n, (void *)tsan_vwrite##n}, {"__tsan_read_write" #n, (void *)tsan_rw##n}, {"__tsan_unaligned_read_write" #n, (void *)tsan_rw##n}
#define TA(n) {"__tsan_atomic" #n "_load", (void *)ta##n##_load}, {"__tsan_atomic" #n "_store", (void *)ta##n##_store}, {"__tsan_atomic" #n "_exchange", (void *)ta##n##_exchange}, {"__tsan_atomic" #n "_fetch_add", (void *)ta##n##_fetch_add}, \
  {"__tsan_atomic" #n "_fetch_sub", (void *)ta##n##_fetch_sub}, {"__tsan_atomic" #n "_fetch_and", (void *)ta##n##_fetch_and}, {"__tsan_atomic" #n "_fetch_or", (void *)ta##n##_fetch_or}, {"__tsan_atomic" #n "_fetch_xor", (void *)ta##n##_fetch_xor}, \
  {"__tsan_atomic" #n "_compare_exchange_val", (void *)ta##n##_cas}
static Sym syms[] = {
    TS(1), TS(2), TS(4), TS(8), TS(16), TA(8), TA(16), TA(32), TA(64), {"__tsan_atomic128_compare_exchange_val", (void *)hsim_cas128},
    {"__tsan_memcpy", (void *)tsan_memcpy}, {"__tsan_memmove", (void *)tsan_memcpy}, {"__tsan_memset", (void *)tsan_memset}, {"__tsan_init", (void *)tsan_nop}, {"__tsan_func_entry", (void *)tsan_nop}, {"__tsan_func_exit", (void *)tsan_nop},
    {"__tsan_atomic_thread_fence", (void *)tsan_nop}, {"__tsan_atomic_signal_fence", (void *)tsan_nop}, {"__tsan_ignore_thread_begin", (void *)tsan_nop}, {"__tsan_ignore_thread_end", (void *)tsan_nop},
    S(CreateFileA), S(CreateFileW), S(CloseHandle), S(ReadFile), S(WriteFile), S(FlushFileBuffers), S(GetFileSizeEx), S(GetFileSize), S(SetFilePointerEx), S(SetEndOfFile), S(DeleteFileA), S(MoveFileExA), S(MoveFileA), S(CopyFileA), S(CreateDirectoryA), S(RemoveDirectoryA), S(GetFileTime), S(SetFileTime), S(CompareFileTime), S(GetFileAttributesExA), S(SetFileAttributesA), S(SetFilePointer), S(GetTempPathA), S(GetTempFileNameA), S(GetFullPathNameA), S(OutputDebugStringA), S(GetEnvironmentVariableA), S(SleepEx), S(GetFileInformationByHandle), S(GetFileAttributesA),
    S(FindFirstFileA), S(FindNextFileA), S(FindClose), S(GetCurrentDirectoryA), S(GetModuleFileNameA), S(GetStdHandle), S(GetCommandLineA), S(GetLastError), S(SetLastError), S(ExitProcess), S(TerminateProcess), S(GetSystemInfo), S(IsDebuggerPresent),
    S(QueryPerformanceCounter), S(QueryPerformanceFrequency), S(GetSystemTime), S(GetLocalTime), S(GetSystemTimeAsFileTime), S(SystemTimeToFileTime), S(GetTickCount64), S(GetTickCount), S(sim_knob), S(sim_rdtsc), S(sim_pause),
    S(VirtualAlloc), S(VirtualFree), S(VirtualProtect), S(GlobalAlloc), S(GlobalFree), {"malloc", (void *)api::ms_malloc}, {"calloc", (void *)api::ms_calloc}, {"realloc", (void *)api::ms_realloc}, {"free", (void *)api::ms_free}, {"MulDiv", (void *)api::MulDiv}, S(GetProcessHeap), S(HeapAlloc), S(HeapFree),
    S(CreateThread), {"_beginthreadex", (void *)api::beginthreadex}, S(ExitThread), S(GetCurrentThreadId), S(GetCurrentProcessId), S(GetCurrentThread), S(GetCurrentProcess), S(GetExitCodeThread), S(CreateEventA), S(CreateSemaphoreA), S(CreateMutexA), S(SetEvent), S(ResetEvent), S(ReleaseSemaphore), S(ReleaseMutex), S(WaitForSingleObject), S(WaitForMultipleObjects), S(Sleep), S(SwitchToThread), S(TlsAlloc), S(TlsGetValue), S(TlsSetValue),
    S(InitializeCriticalSection), S(EnterCriticalSection), S(LeaveCriticalSection), S(TryEnterCriticalSection), S(DeleteCriticalSection), S(AcquireSRWLockExclusive), S(ReleaseSRWLockExclusive), S(AcquireSRWLockShared), S(ReleaseSRWLockShared),
    S(RegOpenKeyExA), S(RegQueryValueExA), S(RegEnumKeyExA), S(RegCloseKey),
    {"strtod", (void *)api::ms_strtod}, {"system", (void *)api::ms_system}, {"memcpy", (void *)api::ms_memcpy}, {"memmove", (void *)api::ms_memcpy}, {"memset", (void *)api::ms_memset}, {"memcmp", (void *)api::ms_memcmp}, {"strlen", (void *)api::ms_strlen}, {"strcmp", (void *)api::ms_strcmp},
    {"exit", (void *)api::ms_exit}, {"_exit", (void *)api::ms_exit}, {"puts", (void *)api::ms_puts}, {"putchar", (void *)api::ms_putchar}, {"__acrt_iob_func", (void *)api::acrt_iob}, {"__stdio_common_vfprintf", (void *)api::stdio_vfprintf}, {"__stdio_common_vsprintf", (void *)api::stdio_vsprintf},
    {"_configure_narrow_argv", (void *)api::ret0}, {"_initialize_narrow_environment", (void *)api::ret0}, {"_configure_wide_argv", (void *)api::ret0}, {"_initialize_wide_environment", (void *)api::ret0}, {"_set_app_type", (void *)api::ret0}, {"_crt_atexit", (void *)api::ret0}, {"fflush", (void *)api::ret0}, {"setvbuf", (void *)api::ret0}, {"__p___argc", (void *)api::p_argc}, {"__p___argv", (void *)api::p_argv}, {"__p___wargv", (void *)api::p_wargv}, S(GetModuleHandleW), S(GetCommandLineW), S(GetEnvironmentStringsA), S(GetEnvironmentStringsW), S(GetStartupInfoA), S(GetStartupInfoW), {"SetUnhandledExceptionFilter", (void *)api::ret0}, {"SetConsoleOutputCP", (void *)api::ret1},
    S(GetModuleHandleA), S(GetProcAddress), {"__chkstk", (void *)hsim_chkstk}, {"RaiseException", (void *)hsim_raise_exception}, {"__C_specific_handler", (void *)hsim_C_specific_handler},
};
static string unsupported_names[512]; static int n_unsupported = 0;
static WINAPI void unsupported_impl(u64 i){ simerror("unsupported import called: %s", unsupported_names[i].c_str()); }
static void *make_unsupported(const string &n){ static u8 *code; static int at; if(!code) code = (u8 *)mmap(0, 65536, 7, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if(n_unsupported >= 512) return nullptr; int i = n_unsupported++; unsupported_names[i] = n;
    u8 *p = code + at; at += 32; p[0] = 0x48; p[1] = 0xb9; u64 v = i; memcpy(p + 2, &v, 8); p[10] = 0x48; p[11] = 0xb8; v = (u64)unsupported_impl; memcpy(p + 12, &v, 8); p[20] = 0xff; p[21] = 0xe0; return p; }

// functions of made-up libraries: each returns its argument plus a number that is computed from the names of the library and the function
static bool imp_stub = false;
static void *make_stub(string n){ static u8 *code; static int at; if(!code) code = (u8 *)mmap(0, 1 << 16, 7, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if(at + 16 > (1 << 16)) return nullptr; u32 h = 2166136261u; for(u8 c : n) h = (h ^ (c >= 'A' && c <= 'Z' ? c + 32 : c)) * 16777619u;
    u8 *p = code + at; at += 16; p[0] = 0x8d; p[1] = 0x81; memcpy(p + 2, &h, 4); p[6] = 0xc3; return p; }

// ------------------------------------------------------------------------------------------------ PE loader
struct Image { u64 base, entry, size; u32 tls_rva, tls_size; };
static u64 rebase;  // where the system puts a produced image, if the image allows to be moved
static bool load_pe(const u8 *d, u64 n, Image *im, string *err, bool prot = false){
    auto r16 = [&](u64 o){ u16 v = 0; if(o + 2 <= n) memcpy(&v, d + o, 2); return v; }; auto r32 = [&](u64 o){ u32 v = 0; if(o + 4 <= n) memcpy(&v, d + o, 4); return v; }; auto r64 = [&](u64 o){ u64 v = 0; if(o + 8 <= n) memcpy(&v, d + o, 8); return v; };
    auto bad = [&](const string &m){ *err = m; return false; };
    if(n < 0x40 || r16(0) != 0x5a4d) return bad("no MZ header"); u32 pe = r32(0x3c); if(r32(pe) != 0x4550) return bad("no PE header"); if(r16(pe + 4) != 0x8664) return bad("machine is not x64");
    u32 ns = r16(pe + 6), so = r16(pe + 20); u64 oh = pe + 24; if(r16(oh) != 0x20b) return bad("optional header magic");
    u64 base = r64(oh + 24); u32 size = r32(oh + 56), hdr = r32(oh + 60); u32 entry = r32(oh + 16); u32 ndir = r32(oh + 108);
    u64 want = base; if(rebase && (r16(oh + 70) & 0x40) && !(r16(pe + 22) & 1) && ndir > 5) base = rebase;
    if(base < WIN_LO || base + size > 0x1000000000ull || (base & 0xffff)) return bad("image base outside the simulated window"); if(size > (256u << 20)) return bad("SizeOfImage too large");
    u64 ms = ((u64)size + 0xffff) & ~0xffffull;
    if(mmap((void *)base, ms, 7, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) return bad("mmap image");
    memcpy((void *)base, d, hdr < n ? hdr : n); u64 sh = oh + so; u64 prev_end = hdr;
    for(u32 i = 0; i < ns; i++, sh += 40){ u32 vs = r32(sh + 8), va = r32(sh + 12), rs = r32(sh + 16), ro = r32(sh + 20); if(sh + 40 > n) return bad("section table truncated"); if((u64)va + vs > size) return bad("section exceeds SizeOfImage"); if(rs && (u64)ro + rs > n) return bad("section data is truncated"); if(va < prev_end) return bad("sections overlap or are unsorted"); prev_end = va + vs; u32 c = rs < vs ? rs : vs; if(c) memcpy((void *)(base + va), d + ro, c); }
    if(base != want){ u64 at = r32(oh + 112 + 5 * 8), end = at + r32(oh + 112 + 5 * 8 + 4); if(end > size) return bad("base relocation directory outside of image"); memcpy((void *)(base + oh - 0 + 24), &base, 8);
        while(at + 8 <= end){ u32 page = *(u32 *)(base + at), len = *(u32 *)(base + at + 4); if(len < 8 || at + len > end || (len & 3)) return bad("malformed base relocation block"); if(page & 0xfff) return bad("base relocation block is not of a page");
            for(u64 i = at + 8; i < at + len; i += 2){ u16 v = *(u16 *)(base + i); if((v >> 12) == 0) continue; if((v >> 12) != 10) return bad("base relocation type"); u64 w = (u64)page + (v & 0xfff); if(w + 8 > size) return bad("base relocation outside of image"); *(u64 *)(base + w) += base - want; }
            at += len; }
        if(at != end) return bad("trailing base relocation data"); }
    u32 irva = ndir > 1 ? r32(oh + 112 + 8) : 0;
    auto mstr = [&](u64 rva, string *o){ if(rva >= size) return false; const char *p = (const char *)(base + rva); u64 mx = size - rva; u64 k = strnlen(p, mx); if(k == mx) return false; *o = string(p, k); return true; };
    if(irva) for(u64 id = irva;; id += 20){ if(id + 20 > size) return bad("import directory outside of image"); u32 *e = (u32 *)(base + id); if(!e[3] && !e[4]) break; string dll; if(!mstr(e[3], &dll)) return bad("bad dll name in import directory"); u64 *thunk = (u64 *)(base + e[4]); u64 *look = e[0] ? (u64 *)(base + e[0]) : thunk;
        for(;; thunk++, look++){ if((u64)thunk + 8 > base + size || (u64)look + 8 > base + size) return bad("import table outside of image"); u64 v = *look; if(!v) break; string nm; if(v >> 63){ nm = dll + "#ordinal" + std::to_string(v & 0xffff); } else if(!mstr((v & 0x7fffffff) + 2, &nm)) return bad("bad import name");
            void *p = nullptr; for(auto &s : syms) if(nm == s.n){ p = s.p; break; } if(!p && prot && !imp_stub) return bad("the image imports " + nm + ", which does not exist"); if(!p) p = imp_stub ? make_stub(v >> 63 ? nm : dll + "!" + nm) : make_unsupported(nm); *thunk = (u64)p; } }
    if(prot){ // what the sections do not permit faults
        mprotect((void *)base, 0x1000, PROT_READ);
        sh = oh + so; for(u32 i = 0; i < ns; i++, sh += 40){ u32 vs = r32(sh + 8), va = r32(sh + 12), c = r32(sh + 36); if(va & 0xfff) return bad("section is not page aligned"); if(mprotect((void *)(base + va), (vs + 0xfff) & ~0xfffull, ((c >> 30 & 1) ? PROT_READ : 0) | ((c >> 31) ? PROT_READ | PROT_WRITE : 0) | ((c >> 29 & 1) ? PROT_EXEC | PROT_READ : 0))) return bad("section protection"); } }
    im->tls_rva = ndir > 9 ? r32(oh + 112 + 9 * 8) : 0; im->tls_size = ndir > 9 ? r32(oh + 112 + 9 * 8 + 4) : 0;
    if(im->tls_rva){ if(im->tls_rva + 40 > size) return bad("TLS directory outside of image"); u64 *td = (u64 *)(base + im->tls_rva); if(td[0] < base || td[1] < td[0] || td[1] > base + size || td[2] < base || td[2] + 4 > base + size) return bad("TLS directory"); if(prot && td[3]){ if(td[3] < base || td[3] + 8 > base + size) return bad("TLS callbacks outside of image"); if(*(u64 *)td[3]) return bad("TLS callbacks"); } }
    im->base = base; im->entry = base + entry; im->size = size; if(entry >= size) return bad("entry point outside of image"); return true; }
static Image img;
namespace api {
static void setup_thread_tls(Thread *t){
    if(!tls_needed) return; if(!t->teb) t->teb = make_teb(); u64 *teb = (u64 *)t->teb; teb[6] = (u64)teb; teb[1] = (u64)t->stack_hi; teb[2] = (u64)t->stack_lo; u64 *tlsv = teb + 512; teb[11] = (u64)tlsv;
    if(img.tls_rva){ u64 *td = (u64 *)(img.base + img.tls_rva); u64 len = td[1] - td[0]; u64 zf = *(u32 *)(td + 4); if(td[1] < td[0] || len > (64 << 20)) finish("badimage", 0, "TLS directory"); u64 p = heap_alloc(len + zf + 16, true); p = (p + 15) & ~15ull; memcpy((void *)p, (void *)td[0], len); *(u32 *)td[2] = 0; tlsv[0] = p; } }
}

// ------------------------------------------------------------------------------------------------ traps
// ---- stepping: every instruction of a produced program is a scheduling point (trap flag). With `tso`, stores to memory that
// is not the own stack may stay invisible to the other threads for a while, as in the store buffers of real processors.
extern "C" u32 hsim_step_call(void *start, void *param); extern "C" char hsim_step_call_end[], hsim_step_switch[], hsim_step_back[];
extern "C" __attribute__((used)) void hsim_step_yield(void){
    Thread *me = cur; int why = me->step_why; u64 pc = me->step_ret;
    if(me->buf.size()){ n_delayed++; for(size_t i = me->buf.size(); i-- > 0;) memcpy((void *)me->buf[i].a, me->buf[i].old, me->buf[i].n); }
    if(why == 6){ pct_at++; me->prio = pct_points.size() - pct_at; why = 0; }
    point_slow(pc, why); me->resumed = true;
    for(auto &b : me->buf){ memcpy(b.old, (void *)b.a, b.n); memcpy((void *)b.a, b.val, b.n); } }
asm(R"(
.text
.globl hsim_step_call, hsim_step_call_end, hsim_step_switch, hsim_step_back
hsim_step_call:
    sub $40, %rsp
    mov %rdi, %rax
    mov %rsi, %rcx
    push %rbp
    push %rbx
    push %r12
    push %r13
    push %r14
    push %r15
    push %rdi
    push %rsi
    sub $32, %rsp
    pushfq
    orq $0x100, (%rsp)
    popfq
    call *%rax
    pushfq
    andq $~0x100, (%rsp)
    popfq
    add $32, %rsp
    pop %rsi
    pop %rdi
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbx
    pop %rbp
    add $40, %rsp
    ret
hsim_step_call_end:
hsim_step_switch:
    push %rax
    pushfq
    push %rax
    push %rbx
    push %rcx
    push %rdx
    push %rsi
    push %rdi
    push %rbp
    push %r8
    push %r9
    push %r10
    push %r11
    push %r12
    push %r13
    push %r14
    push %r15
    mov %rsp, %rbp
    sub $512, %rsp
    and $-64, %rsp
    fxsave64 (%rsp)
    mov _ZL3cur, %rbx
    cld
    call hsim_step_yield
    mov 8(%rbx), %rax
    mov %rax, 128(%rbp)
    orq $0x100, 120(%rbp)
    fxrstor64 (%rsp)
    mov %rbp, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %r11
    pop %r10
    pop %r9
    pop %r8
    pop %rbp
    pop %rdi
    pop %rsi
    pop %rdx
    pop %rcx
    pop %rbx
    pop %rax
    popfq
    ret
hsim_step_back:
    push %rax
    push %rax
    mov _ZL3cur, %rax
    mov 8(%rax), %rax
    mov %rax, 8(%rsp)
    pop %rax
    pushfq
    orq $0x100, (%rsp)
    popfq
    ret
)");
static void drain(Thread *t){ t->buf.clear(); t->pend_n = 0; }
// decodes the instruction at rip as far as needed: 0 it does not write memory (or only the stack), 1 it stores n bytes to *a, 2 anything else (drain)
static int decode_store(u64 rip, greg_t *g, u64 *a, u32 *n){
    static const int R[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    u8 *p = (u8 *)rip; bool o16 = false; int rep = 0;
    for(;; p++){ if(*p == 0x66) o16 = true; else if(*p == 0xf2 || *p == 0xf3) rep = *p; else break; }
    u8 rex = 0; if((*p & 0xf0) == 0x40) rex = *p++;
    int op = *p++; if(op == 0x0f){ op = 0x100 | *p++; if(op == 0x138 || op == 0x13a) return 2; }
    u32 w = rex & 8 ? 8 : o16 ? 2 : 4; int imm = 0; u32 sz = 0; bool rd = false;   // rd: reads its operand only
    if(op < 0x40 && (op & 7) < 6){ bool cmp = (op >> 3) == 7; if((op & 7) >= 4) return 0; sz = op & 1 ? w : 1; rd = cmp || (op & 2); }
    else if(op >= 0x50 && op <= 0x5f) return 0; else if(op == 0x63 || op == 0x8d || op == 0x84 || op == 0x85 || op == 0x8a || op == 0x8b || op == 0x69 || op == 0x6b) return 0;
    else if(op == 0x68 || op == 0x6a || (op >= 0x70 && op <= 0x7f) || op == 0xc3 || op == 0xc2 || op == 0xe8 || op == 0xe9 || op == 0xeb || op == 0xc9 || op == 0xa8 || op == 0xa9 || (op >= 0xb0 && op <= 0xbf) || (op == 0x90) || op == 0x98 || op == 0x99) return 0;
    else if(op == 0x80 || op == 0x83){ sz = op == 0x80 ? 1 : w; imm = 1; rd = (*p >> 3 & 7) == 7; } else if(op == 0x81){ sz = w; imm = o16 ? 2 : 4; rd = (*p >> 3 & 7) == 7; }
    else if(op == 0x88 || op == 0x89) sz = op & 1 ? w : 1; else if(op == 0xc6){ sz = 1; imm = 1; } else if(op == 0xc7){ sz = w; imm = o16 ? 2 : 4; }
    else if(op == 0xc0 || op == 0xc1){ sz = op & 1 ? w : 1; imm = 1; } else if(op >= 0xd0 && op <= 0xd3) sz = op & 1 ? w : 1;
    else if(op == 0xf6 || op == 0xf7){ int e = *p >> 3 & 7; sz = op & 1 ? w : 1; if(e < 2) return 0; rd = e > 3; }
    else if(op == 0xfe) sz = 1; else if(op == 0xff){ int e = *p >> 3 & 7; if(e >= 2 && e != 6) return 0; if(e == 6) return 0; sz = w; }
    else if(op == 0x1ae) return (*p & 0xf8) == 0xf8 || (*p & 0xf8) == 0xe8 ? 0 : 2;       // sfence and lfence do not empty the store buffer
    else if(op == 0x1b0 || op == 0x1b1 || op == 0x1c0 || op == 0x1c1) sz = op & 1 ? w : 1; else if(op == 0x1c7 && (*p >> 3 & 7) == 1) sz = rex & 8 ? 16 : 8;       // without a lock prefix: a load and a store
    else if(op >= 0x180 && op <= 0x18f) return 0; else if(op >= 0x190 && op <= 0x19f) sz = 1;
    else if((op >= 0x140 && op <= 0x14f) || op == 0x1af || op == 0x1b6 || op == 0x1b7 || op == 0x1be || op == 0x1bf || op == 0x11f || op == 0x1bc || op == 0x1bd || (op >= 0x1c8)) return op >= 0x1c8 && op > 0x1cf ? 2 : 0;
    else if(op == 0x110 || op == 0x128 || op == 0x16e || op == 0x16f || (op >= 0x151 && op <= 0x15f) || op == 0x12a || op == 0x12c || op == 0x12d || op == 0x12e || op == 0x12f || op == 0x1ef) return 0;
    else if(op == 0x111) sz = rep == 0xf2 ? 8 : rep == 0xf3 ? 4 : 16; else if(op == 0x129 || op == 0x17f) sz = 16; else if(op == 0x17e && !rep) sz = rex & 8 ? 8 : 4; else if(op == 0x1d6) sz = 8;
    else return 2;
    int m = *p++, mod = m >> 6, rm = m & 7; if(mod == 3 || rd) return 0;
    u64 ea = 0;
    if(rm == 4){ int b = *p++; int ix = (b >> 3 & 7) | (rex & 2) << 2, bs = (b & 7) | (rex & 1) << 3; if(ix != 4) ea += (u64)g[R[ix]] << (b >> 6); if((b & 7) == 5 && mod == 0){ ea += (s64)*(s32 *)p; p += 4; } else ea += (u64)g[R[bs]]; }
    else if(rm == 5 && mod == 0){ ea = (s64)*(s32 *)p; p += 4; ea += (u64)p + imm; }
    else ea = (u64)g[R[rm | (rex & 1) << 3]];
    if(mod == 1) ea += (s64)*(signed char *)p; else if(mod == 2) ea += (s64)*(s32 *)p;
    *a = ea; *n = sz; return 1; }
// ---- structured exceptions. With `seh`, every instruction of a produced program is checked: unwinding one frame with the unwind
// information of the image has to give what the (shadow) stack of calls says, and exceptions are raised at chosen instructions.
// Raising, searching and unwinding do what Windows does (RtlDispatchException, RtlVirtualUnwind, __C_specific_handler, RtlUnwindEx).
static u64 seh_mode = 0, seh_n = 0; static vector<std::pair<u64, u32>> seh_inject; static size_t seh_at = 0;
struct Ctx { u64 r[16], rip; };
struct ExcRecord { u32 code, flags; void *next; u64 addr; u32 n; u64 info[15]; };
struct Exc { gregset_t g; u8 fp[512]; ExcRecord rec; void *ptrs[2]; u8 context[1232]; };
static Exc *seh_res; // what to continue with
static const int GR[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
static const int NV[8] = {3, 5, 6, 7, 12, 13, 14, 15};
static Ctx ctx_of(const greg_t *g){ Ctx c; for(int i = 0; i < 16; i++) c.r[i] = g[GR[i]]; c.rip = g[REG_RIP]; return c; }
static void seh_bad(const char *f, ...) __attribute__((noreturn, format(printf, 1, 2)));
static void seh_bad(const char *f, ...){ char b[512]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); finish("unwind", 0, b); }
static u64 seh_peek(u64 a){ if(a < (u64)cur->stack_lo + 0x10000 || a + 8 > (u64)cur->stack_hi) seh_bad("unwinding reads 0x%llx, which is not on the stack", (unsigned long long)a); return *(u64 *)a; }
static bool seh_in_img(u64 a){ return a - img.base < img.size; }
static bool seh_in_stub(u64 a){ return a >= (u64)hsim_step_call && a < (u64)hsim_step_call_end; }
// RtlLookupFunctionEntry and RtlVirtualUnwind: unwinds one frame of the image
static void seh_unwind(Ctx *c, u64 *frame, u64 *handler, u32 **data){
    u8 *b = (u8 *)img.base; u32 pe = *(u32 *)(b + 0x3c), dir = *(u32 *)(b + pe + 24 + 112 + 3 * 8), dsz = *(u32 *)(b + pe + 24 + 112 + 3 * 8 + 4); u32 rva = (u32)(c->rip - img.base); *handler = 0; *data = nullptr;
    if((u64)dir + dsz > img.size) seh_bad("the exception directory is outside of the image");
    u32 *fe = nullptr; if(dir){ int lo = 0, hi = (int)(dsz / 12) - 1; while(lo <= hi){ int m = (lo + hi) >> 1; u32 *e = (u32 *)(b + dir + m * 12); if(rva < e[0]) hi = m - 1; else if(rva >= e[1]) lo = m + 1; else { fe = e; break; } } }
    if(!fe){ *frame = c->r[4]; c->rip = seh_peek(c->r[4]); c->r[4] += 8; return; }
    if(fe[2] & 3 || (u64)fe[2] + 4 > img.size) seh_bad("the unwind information of function 0x%x is at 0x%x", fe[0], fe[2]);
    u8 *ui = b + fe[2]; u32 fl = ui[0] >> 3, pro = ui[1], cnt = ui[2], fr = ui[3] & 15, fo = (ui[3] >> 4) * 16, off = rva - fe[0]; u16 *code = (u16 *)(ui + 4); if((ui[0] & 7) != 1) seh_bad("the version of the unwind information of function 0x%x is %d", fe[0], ui[0] & 7);
    if((u64)fe[2] + 4 + ((cnt + 1) & ~1u) * 2 > img.size) seh_bad("the unwind information of function 0x%x is outside of the image", fe[0]);
    if(!fr) *frame = c->r[4]; else if(off >= pro) *frame = c->r[fr] - fo; else { *frame = c->r[4]; for(u32 i = 0; i < cnt; i++) if((code[i] >> 8 & 15) == 3 && (code[i] & 255) <= off) *frame = c->r[fr] - fo; }
    // in an epilogue?
    { u8 *p = (u8 *)c->rip, *end = b + fe[1]; auto u8at = [&](int i) -> int { return p + i < end ? p[i] : -1; };
      u64 rsp = c->r[4];
      if(u8at(0) == 0x48 && u8at(1) == 0x83 && u8at(2) == 0xc4){ rsp += (s64)(signed char)p[3]; p += 4; } else if(u8at(0) == 0x48 && u8at(1) == 0x81 && u8at(2) == 0xc4){ rsp += (s64)*(s32 *)(p + 3); p += 7; }
      else if(fr && (u8at(0) & 0xfe) == 0x48 && u8at(1) == 0x8d && (u8at(2) & 0x3f) == (0x20 | (fr & 7)) && ((u8at(0) & 1) == (int)(fr >> 3))){ int m = p[2] >> 6; if(m == 1){ rsp = c->r[fr] + (s64)(signed char)p[3]; p += 4; } else if(m == 2){ rsp = c->r[fr] + (s64)*(s32 *)(p + 3); p += 7; } }
      int pops[16], np = 0;
      for(;;){ if(np < 16 && u8at(0) >= 0x58 && u8at(0) <= 0x5f){ pops[np++] = p[0] - 0x58; p++; } else if(np < 16 && u8at(0) == 0x41 && u8at(1) >= 0x58 && u8at(1) <= 0x5f){ pops[np++] = p[1] - 0x58 + 8; p += 2; } else break; }
      bool ep = u8at(0) == 0xc3 || u8at(0) == 0xc2 || (u8at(0) == 0xf3 && u8at(1) == 0xc3) || (u8at(0) == 0xff && u8at(1) == 0x25);
      if(u8at(0) == 0xeb || u8at(0) == 0xe9){ u64 t = u8at(0) == 0xeb ? (u64)p + 2 + (s64)(signed char)p[1] : (u64)p + 5 + (s64)*(s32 *)(p + 1); u64 tr = t - img.base; ep = tr < fe[0] || tr >= fe[1]; }
      if(ep){ for(int i = 0; i < np; i++){ c->r[pops[i]] = seh_peek(rsp); rsp += 8; } c->rip = seh_peek(rsp); c->r[4] = rsp + 8; return; } }
    for(u32 i = 0; i < cnt;){ u32 op = code[i] >> 8 & 15, in = code[i] >> 12, at = code[i] & 255, sl = op == 1 ? 2 + in : op == 4 || op == 8 ? 2 : op == 5 || op == 9 ? 3 : 1;
        if(i + sl > cnt) seh_bad("the unwind codes of function 0x%x are truncated", fe[0]);
        if(at > pro) seh_bad("an unwind code of function 0x%x is behind its prologue", fe[0]);
        if(off >= pro || at <= off) switch(op){
            case 0: c->r[in] = seh_peek(c->r[4]); c->r[4] += 8; break;
            case 1: c->r[4] += in ? (u64)code[i + 1] | (u64)code[i + 2] << 16 : (u64)code[i + 1] * 8; break;
            case 2: c->r[4] += in * 8 + 8; break;
            case 3: c->r[4] = c->r[fr] - fo; break;
            case 4: c->r[in] = seh_peek(*frame + code[i + 1] * 8); break;
            default: seh_bad("unwind operation %d of function 0x%x", op, fe[0]); }
        i += sl; }
    c->rip = seh_peek(c->r[4]); c->r[4] += 8;
    if(off >= pro && (fl & 1)){ u32 *h = (u32 *)(ui + 4 + ((cnt + 1) & ~1u) * 2); if((u8 *)(h + 2) > b + img.size) seh_bad("the handler of function 0x%x is outside of the image", fe[0]); *handler = img.base + h[0]; *data = h + 1; } }
static void seh_pop(Thread *t, const Ctx &c){ while(t->shadow.size() && t->shadow.back().slot < c.r[4]){ Frame &f = t->shadow.back();
    if(f.slot + 8 == c.r[4]){ if(c.rip != f.ret) seh_bad("a function returned to 0x%llx instead of 0x%llx", (unsigned long long)(c.rip - img.base), (unsigned long long)(f.ret - img.base)); for(int i = 0; i < 8; i++) if(c.r[NV[i]] != f.nv[i]) seh_bad("a function did not preserve register %d, seen after the return to 0x%llx", NV[i], (unsigned long long)(c.rip - img.base)); }
    else if(!(c.rip == f.ret)) seh_bad("the stack pointer is above the frame at 0x%llx", (unsigned long long)(c.rip - img.base));
    t->shadow.pop_back(); } }
static void seh_push(Thread *t, const Ctx &c){ Frame f; f.slot = c.r[4]; f.ret = seh_peek(c.r[4]); for(int i = 0; i < 8; i++) f.nv[i] = c.r[NV[i]]; t->shadow.push_back(f); }
static void seh_prepare(Thread *t, const Ctx &c){ u8 *p = (u8 *)c.rip; if((*p & 0xf0) == 0x40) p++; t->call_rsp = *p == 0xe8 || (*p == 0xff && (p[1] & 0x38) == 0x10) ? c.r[4] : 0; }
extern "C" void hsim_exc_entry(Exc *e);
static void seh_raise(Thread *t, ucontext_t *uc, u32 code, u32 flags = 0, u32 n = 0, const u64 *info = nullptr){
    greg_t *g = uc->uc_mcontext.gregs; Exc *e = new Exc; memset(e, 0, sizeof *e); memcpy(e->g, g, sizeof(gregset_t)); memcpy(e->fp, uc->uc_mcontext.fpregs, 512); if(t->excs.size() > 8) seh_bad("exceptions are nested too deeply");
    e->rec.code = code; e->rec.flags = flags; e->rec.addr = g[REG_RIP]; e->rec.n = n > 15 ? 15 : n; for(u32 i = 0; i < e->rec.n && info; i++) e->rec.info[i] = info[i]; e->ptrs[0] = &e->rec; e->ptrs[1] = e->context;
    { u64 *x = (u64 *)(e->context + 0x78); for(int i = 0; i < 16; i++) x[i] = g[GR[i]]; x[16] = g[REG_RIP]; }
    char b[96]; snprintf(b, sizeof b, "%d %llx %x %zu\n", t->id, (unsigned long long)(g[REG_RIP] - img.base), code, out_stdout.size()); seh_log += b; fault_fired["exception"]++;
    t->excs.push_back(e); t->call_rsp = 0; u64 sp = g[REG_RSP]; if(sp < (u64)t->stack_lo + 0x18000 || sp > (u64)t->stack_hi) seh_bad("exception on a stack that is exhausted");
    memset((void *)(sp - 2048), 0xE7, 2048); g[REG_RSP] = ((sp - 2048) & ~63ull) - 8; g[REG_RIP] = (u64)hsim_exc_entry; g[REG_RDI] = (u64)e; g[REG_EFL] &= ~0x500; }
extern "C" __attribute__((used)) void hsim_exc_entry(Exc *e){
    Thread *t = cur; int at = (int)t->excs.size() - 1; Ctx c = ctx_of(e->g);
    for(int n = 0;; n++){
        if(n > 10000) seh_bad("the stack does not end");
        if(seh_in_stub(c.rip)){ if(at == 0) finish("unhandled", e->rec.code, ""); at--; c = ctx_of(t->excs[at]->g); continue; }     // the frame below a filter is the one that raised
        if(!seh_in_img(c.rip)) seh_bad("unwinding arrives at 0x%llx", (unsigned long long)c.rip);
        Ctx prev = c; u64 frame, handler; u32 *d; seh_unwind(&c, &frame, &handler, &d);
        if(!handler) continue;
        u8 *h = (u8 *)handler; if(!seh_in_img(handler) || h[0] != 0xff || h[1] != 0x25) seh_bad("the handler of a function at 0x%llx is not a stub", (unsigned long long)(prev.rip - img.base));
        { u64 slot = handler + 6 + (s64)*(s32 *)(h + 2); if(!seh_in_img(slot) || *(u64 *)slot != (u64)hsim_C_specific_handler) seh_bad("the handler of a function at 0x%llx is not __C_specific_handler", (unsigned long long)(prev.rip - img.base)); }
        u32 cnt = *d++; if((u8 *)(d + 4 * (u64)cnt) > (u8 *)img.base + img.size) seh_bad("the scope table is outside of the image");
        u32 pc = (u32)(prev.rip - img.base);
        for(u32 i = 0; i < cnt; i++, d += 4){
            if(pc < d[0] || pc >= d[1] || !d[3]) continue;
            s32 r = 1; if(d[2] != 1){ if(d[2] >= img.size) seh_bad("a filter is outside of the image"); t->entering = true; r = (s32)((u32 (*)(void *, void *, u64))hsim_step_call)((void *)(img.base + d[2]), e->ptrs, frame); }
            if(r == 0) continue;
            if(r < 0){ if(e->rec.flags & 1) finish("unhandled", 0xc0000025, "noncontinuable"); Exc *x = e; t->excs.pop_back(); Ctx k = ctx_of(x->g); seh_prepare(t, k); seh_res = x; asm volatile(".globl hsim_exc_resume\nhsim_exc_resume: int3"); __builtin_unreachable(); }
            while(t->shadow.size() && t->shadow.back().slot < prev.r[4]) t->shadow.pop_back();
            t->excs.resize(at); Exc *x = new Exc(*e); for(int j : {1, 2, 8, 9, 10, 11}) x->g[GR[j]] = 0x7e7e7e7e7e7e7e7eull; for(int j : NV) x->g[GR[j]] = prev.r[j]; x->g[REG_RSP] = prev.r[4]; x->g[REG_RAX] = e->rec.code; x->g[REG_RIP] = img.base + d[3]; memset(x->fp + 160, 0x7e, 6 * 16);
            if(d[3] >= img.size) seh_bad("the jump target of a handler is outside of the image");
            Ctx k = ctx_of(x->g); seh_prepare(t, k); seh_res = x; asm volatile("jmp hsim_exc_resume"); __builtin_unreachable(); } } }
extern "C" __attribute__((used)) void hsim_C_specific_handler(void){ simerror("__C_specific_handler was called"); }
asm(R"(
.text
.globl hsim_raise_exception
hsim_raise_exception:
    int3
    ret
)");
// a trap that belongs to the above
static bool seh_trap(int sig, siginfo_t *si, ucontext_t *uc){
    greg_t *g = uc->uc_mcontext.gregs; u64 rip = g[REG_RIP]; Thread *t = cur; if(!t) return false;
    if(sig == SIGTRAP && rip - 1 == (u64)hsim_exc_resume){ memcpy(g, seh_res->g, sizeof(gregset_t)); memcpy(uc->uc_mcontext.fpregs, seh_res->fp, 512); return true; }
    if(sig == SIGTRAP && rip - 1 == (u64)hsim_raise_exception){ if(!seh_mode) return false; u32 code = (u32)g[REG_RCX] & ~0x10000000u, fl = (u32)g[REG_RDX] & 1, n = (u32)g[REG_R8]; const u64 *info = (const u64 *)g[REG_R9];
        u64 ret = seh_peek(g[REG_RSP]); g[REG_RIP] = ret == (u64)hsim_step_back ? t->step_ret : ret; g[REG_RSP] += 8; g[REG_EFL] |= 0x100; Ctx c = ctx_of(g); seh_pop(t, c); seh_raise(t, uc, code, fl, n, info); return true; }
    if(!seh_mode || !seh_in_img(rip) || seh_in_stub(rip)) return false;
    u32 code = sig == SIGSEGV && si->si_code != SI_KERNEL ? 0xc0000005 : sig == SIGILL ? 0xc000001d : sig == SIGFPE ? 0xc0000094 : sig == SIGTRAP && si->si_code != TRAP_TRACE ? 0x80000003 : 0; if(!code) return false;
    if(sig == SIGSEGV){ u64 a = (u64)si->si_addr; if(a >= (u64)t->stack_lo && a < (u64)t->stack_lo + 0x10000) return false; u64 info[2] = {(u64)(g[REG_ERR] & 2 ? 1 : g[REG_ERR] & 16 ? 8 : 0), a}; seh_raise(t, uc, code, 0, 2, info); return true; }
    if(sig == SIGTRAP) g[REG_RIP] = rip - 1;
    seh_raise(t, uc, code); return true; }
// before every instruction; true if an exception is raised at it
static bool seh_step(Thread *t, ucontext_t *uc){
    Ctx c = ctx_of(uc->uc_mcontext.gregs);
    seh_pop(t, c);
    if(t->call_rsp){ if(c.r[4] == t->call_rsp - 8) seh_push(t, c); }
    else if((t->shadow.empty() || t->entering) && seh_in_stub(seh_peek(c.r[4]))) seh_push(t, c);
    t->entering = false;
    t->call_rsp = 0; seh_n++; if(t->shadow.empty()) seh_bad("no call is active at 0x%llx", (unsigned long long)(c.rip - img.base));
    Ctx u = c; u64 frame, handler; u32 *d; seh_unwind(&u, &frame, &handler, &d); Frame &f = t->shadow.back(); u64 at = c.rip - img.base;
    if(u.rip != f.ret || u.r[4] != f.slot + 8) seh_bad("at 0x%llx the unwind information gives the return address 0x%llx and stack pointer 0x%llx instead of 0x%llx and 0x%llx", (unsigned long long)at, (unsigned long long)(u.rip - img.base), (unsigned long long)(u.r[4] - (u64)t->stack_lo), (unsigned long long)(f.ret - img.base), (unsigned long long)(f.slot + 8 - (u64)t->stack_lo));
    for(int i = 0; i < 8; i++) if(u.r[NV[i]] != f.nv[i]) seh_bad("at 0x%llx the unwind information gives register %d the wrong value", (unsigned long long)at, NV[i]);
    if(seh_at < seh_inject.size() && seh_n >= seh_inject[seh_at].first){ u32 code = seh_inject[seh_at++].second; seh_raise(t, uc, code); seh_log.insert(seh_log.size() - 1, " i"); return true; }
    seh_prepare(t, c); return false; }
static void on_fault(int sig, siginfo_t *si, void *uc_);
static void on_step(int sig, siginfo_t *si, void *uc_){
    ucontext_t *uc = (ucontext_t *)uc_; greg_t *g = uc->uc_mcontext.gregs; u64 rip = g[REG_RIP]; Thread *t = cur;
    if(si->si_code != TRAP_TRACE){ on_fault(sig, si, uc_); return; }
    if(rip - img.base >= img.size){
        if(seh_mode){ t->call_rsp = 0; if(seh_in_stub(rip)){ Ctx c = ctx_of(g); if(t->shadow.size() && t->shadow.back().slot + 8 == c.r[4]) seh_pop(t, c); } }
        if(rip >= (u64)hsim_step_call && rip < (u64)hsim_step_call_end){ drain(t); return; }
        g[REG_EFL] &= ~0x100; u64 *sp = (u64 *)g[REG_RSP]; drain(t);       // a call of the system: continue stepping when it returns
        if(*sp - img.base < img.size && ((u64)sp & 15) != 8){ char b[128]; snprintf(b, sizeof b, "a system function is called from image+0x%llx with a misaligned stack", (unsigned long long)(*sp - img.base)); finish("crash", 0, b); }
        if(*sp - img.base < img.size){ t->step_ret = *sp; *sp = (u64)hsim_step_back; }
        return; }
    if(seh_mode && !t->resumed && seh_step(t, uc)) return;
    n_stepped++; if(++total_steps > step_budget) finish("livelock", 0, "step budget exhausted");
    if(tso){
        if(t->pend_n && memcmp((void *)t->pend_a, t->pend, t->pend_n)){ Thread::Buffered b; b.a = t->pend_a; b.n = t->pend_n; memcpy(b.old, t->pend, b.n); memcpy(b.val, (void *)b.a, b.n); t->buf.push_back(b); n_buffered++; }
        t->pend_n = 0;
        while(t->buf.size() && (t->buf.size() > 40 || (Rng::mix(t->ev * 31 + t->id + tso) % 24) < 1 + t->buf.size() / 8)) t->buf.erase(t->buf.begin());
        u64 a; u32 n; int k = decode_store(rip, g, &a, &n);
        if(k == 2) drain(t);
        else if(k == 1){ if(a >= (u64)t->stack_lo && a < (u64)t->stack_hi){} else { t->pend_a = a; t->pend_n = n; memcpy(t->pend, (void *)a, n); } } }
    t->ev++; total_ev++; changes++; t->quiet = 0;
    if(t->resumed){ t->resumed = false; return; }
    if(threads.size() < 2) return;
    int why = -1;
    if(t->ev >= t->trig) why = 0;
    else if(mode == 2){ if(pct_at < pct_points.size() && total_ev >= pct_points[pct_at]) why = 6; }
    else if(mode == 3 && n_preempt < sw_cap){ if((Rng::mix((rip - img.base) ^ site_seed) % site_mod) == 0 && prng.chance(1, site_mean)) why = 0; }
    if(why < 0 && ++t->since > fair) why = 5;
    if(why < 0) return;
    t->step_why = why; t->pend_n = 0; t->step_ret = rip; g[REG_RIP] = (u64)hsim_step_switch; g[REG_EFL] &= ~0x100; }
static void on_fault(int sig, siginfo_t *si, void *uc_){
    ucontext_t *uc = (ucontext_t *)uc_; if(seh_trap(sig, si, uc)) return;
    u64 rip = uc->uc_mcontext.gregs[REG_RIP], a = (u64)si->si_addr;
    if(sig == SIGALRM) finish("hang", 0, "wall clock limit");
    const char *k = sig == SIGSEGV ? "access violation" : sig == SIGILL ? "illegal instruction" : sig == SIGFPE ? "arithmetic trap" : sig == SIGTRAP ? "breakpoint" : "bus error";
    bool in_img = rip >= img.base && rip < img.base + img.size; char b[512]; string extra;
    u64 rsp = uc->uc_mcontext.gregs[REG_RSP];
    if(cur && cur->stack_lo && a >= (u64)cur->stack_lo && a < (u64)cur->stack_lo + 0x10000) k = "stack overflow";
    for(auto &f : freed) if(a >= f.first && a < f.second) k = "use after free";
    if(sig == SIGSEGV && si->si_code == SI_KERNEL){ k = "assertion failure or non-canonical address"; a = 0; }
    // a crude call chain: values on the stack that point behind call instructions of the image
    int found = 0; for(u64 p = rsp; cur && p >= (u64)cur->stack_lo && p + 8 <= (u64)cur->stack_hi && p < rsp + 4096 && found < 12; p += 8){ u64 v = *(u64 *)p; if(v > img.base + 16 && v < img.base + img.size){ u8 *c = (u8 *)v; if(c[-5] == 0xe8 || (c[-2] == 0xff && (c[-1] & 0xf8) == 0xd0) || (c[-6] == 0xff && c[-5] == 0x15)){ char t[32]; snprintf(t, sizeof t, " %llx", (unsigned long long)(v - img.base)); extra += t; found++; } } }
    snprintf(b, sizeof b, "%s at %s+0x%llx address 0x%llx thread %d chain%s", k, in_img ? "image" : "outside", (unsigned long long)(in_img ? rip - img.base : rip), (unsigned long long)a, cur ? cur->id : -1, extra.c_str());
    finish("crash", 0, b); }
static void install_handlers(){
    static u8 alt[65536]; stack_t ss = {alt, 0, sizeof alt}; sigaltstack(&ss, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for(int s : {SIGSEGV, SIGILL, SIGFPE, SIGBUS, SIGTRAP, SIGALRM}) sigaction(s, &sa, 0); if(step_mode){ sa.sa_sigaction = on_step; sigaction(SIGTRAP, &sa, 0); } }

static void parse_faults(const string &v){ // "kind nth arg\n"
    size_t i = 0; while(i < v.size()){ size_t e = v.find('\n', i); if(e == string::npos) e = v.size(); string l = v.substr(i, e - i); i = e + 1; if(l.empty()) continue; size_t a = l.find(' '), b = l.find(' ', a + 1); Fault f; f.kind = l.substr(0, a); f.nth = strtoull(l.c_str() + a + 1, 0, 10); f.arg = b == string::npos ? "" : l.substr(b + 1); faults.push_back(f); } }

static void run_child(const vector<std::pair<string,string>> &job){
    is_child = true; fs = base_fs; objs.clear(); { Obj o; o.type = 7; new_obj(o); new_obj(o); o.type = 9; new_obj(o); } // stdout at 0x1000, stderr at 0x1008
    u64 seed = 1, wall = 20; string image = "hlc"; int pct_d = 3; string swtext;
    fs_mkdirs(fs, "C:/work");
    sdk_versions.push_back("10.0.1.0");
    for(auto &kv : job){ const string &k = kv.first, &v = kv.second; auto num = [&]{ return strtoull(v.c_str(), 0, 10); };
        if(k == "cmd") cmdline = v; else if(k == "env") envstrings = v; else if(k == "startup") { sscanf(v.c_str(), "%u %u", &startup_flags, &startup_show); } else if(k == "file"){ size_t z = v.find('\0'); Node &n = fs_add(fs, v.substr(0, z)); n.data = v.substr(z + 1); n.ext = nullptr; n.ext_size = 0; }
        else if(k == "dir") { string disp; norm_path(v, &disp); fs_mkdirs(fs, disp); } else if(k == "rm"){ string p = norm_path(v); for(auto it = fs.begin(); it != fs.end();) if(it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0) it = fs.erase(it); else ++it; }
        else if(k == "mtime"){ size_t z = v.find('\0'); auto it = fs.find(norm_path(v.substr(0, z))); if(it != fs.end()) it->second.mtime = strtoull(v.c_str() + z + 1, 0, 10); }
        else if(k == "readonly"){ auto it = fs.find(norm_path(v)); if(it != fs.end()) it->second.readonly = true; }
        else if(k == "seed") seed = num(); else if(k == "mode") mode = (int)num(); else if(k == "mean") p_mean = num(); else if(k == "gran") gran = (int)num(); else if(k == "pctk") pct_k = num(); else if(k == "pctd") pct_d = (int)num();
        else if(k == "sitemod") site_mod = num(); else if(k == "sitemean") site_mean = num(); else if(k == "nproc") nproc = (int)num(); else if(k == "memseed") mem_seed = num(); else if(k == "enumseed") enum_seed = num(); else if(k == "clock") clock_base = num();
        else if(k == "budget") step_budget = num(); else if(k == "faults") parse_faults(v); else if(k == "sw") swtext = v; else if(k == "kits") kits_root = v; else if(k == "sdkver"){ sdk_versions.clear(); size_t i = 0; while(i < v.size()){ size_t e = v.find(',', i); if(e == string::npos) e = v.size(); string x = v.substr(i, e - i), st; size_t q = x.find('='); if(q != string::npos){ st = x.substr(q + 1); x = x.substr(0, q); } sdk_versions.push_back(x); sdk_opt[x] = st; i = e + 1; } } else if(k == "kitszeros") kits_zeros = num();
        else if(k == "knob") api::knob_cap = num(); else if(k == "image") image = v; else if(k == "rebase") rebase = num(); else if(k == "memlimit") mem_limit = num(); else if(k == "wall") wall = num(); else if(k == "cwd") g_cwd = v; else if(k == "disk") disk_left = num(); else if(k == "fair") fair = num(); else if(k == "swcap") sw_cap = num(); else if(k == "trace") want_trace = num(); else if(k == "spin") spin_lim = num(); else if(k == "step") step_mode = num(); else if(k == "tso") tso = num(); else if(k == "seh") { seh_mode = num(); if(seh_mode) step_mode = 1; } else if(k == "inject"){ size_t i = 0; while(i < v.size()){ unsigned long long n; u32 c; if(sscanf(v.c_str() + i, "%llu %x", &n, &c) == 2) seh_inject.push_back({n, c}); i = v.find('\n', i); if(i == string::npos) break; i++; } } else if(k == "module") modname = v; else if(k == "impstub") imp_stub = num(); }
    prng.s = Rng::mix(seed); addr_rng.s = Rng::mix(mem_seed * 77 + 5);
    { size_t i = 0; while(i < swtext.size()){ size_t e = swtext.find('\n', i); if(e == string::npos) e = swtext.size(); int t, to; unsigned long long ev, pcx; char wn[16] = "preempt"; string ln = swtext.substr(i, e - i); if(sscanf(ln.c_str(), "%d %llu %d %llx %15s", &t, &ev, &to, &pcx, wn) >= 3){ int w = 0; for(int k = 3; k <= 5; k++) if(!strcmp(wn, why_name[k])) w = k; api::sw_plan[t].push_back({ev, to | w << 16}); } i = e + 1; } for(auto &x : api::sw_plan) std::sort(x.second.begin(), x.second.end()); }
    if(mode == 2){ for(int i = 0; i < pct_d; i++) pct_points.push_back(1 + prng.below(pct_k ? pct_k : 100000)); std::sort(pct_points.begin(), pct_points.end()); }
    if(mode == 3) site_seed = prng.next();
    for(size_t i = 0; i < cmdline.size(); i++) {}
    install_handlers(); { itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = wall; setitimer(ITIMER_REAL, &tv, 0); }
    for(auto &kv : fs) if(!kv.second.dir && !kv.second.ext) initial_files.push_back(kv.first);
    string err;
    if(image != "hlc"){ if(!load_pe((const u8 *)image.data(), image.size(), &img, &err, true)) finish("badimage", 0, err); tls_needed = true; api::main_image = img.base; }
    IMG_LO = img.base; IMG_HI = img.base + img.size;
    // the initial thread
    Thread boot; cur = &boot; Thread *t = api::spawn((void *)img.entry, nullptr, 1 << 20); t->id = 0; t->sw = api::sw_plan[0]; threads.push_back(t); Obj o; o.type = 4; o.tid = 0; t->hobj = new_obj(o);
    cur = t; t->since = 0; t->spins = false; set_gs(t); void *dummy; hsim_swtch(&dummy, t->sp); simerror("main thread returned to the boot context"); }

int main(int argc, char **argv){
    // layout determinism: no address space randomisation
    if(!getenv("HSIM_REEXEC")){ setenv("HSIM_REEXEC", "1", 1); if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    const char *exe = nullptr; 
    if(mmap(SH, (WIN_HI - WIN_LO) >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED){ perror("shadow"); return 3; }
    shm = (u8 *)mmap(0, shm_cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(shm == MAP_FAILED){ perror("shm"); return 3; }
    for(int i = 1; i + 1 < argc; i += 2){ string k = argv[i]; if(k == "--hlc") exe = argv[i + 1]; else if(k == "--tree"){ string v = argv[i + 1]; size_t e = v.find('='); load_host_tree(v.substr(0, e), v.substr(e + 1)); } }
    if(exe){ int fd = open(exe, O_RDONLY); struct stat st; if(fd < 0 || fstat(fd, &st)){ perror(exe); return 3; } vector<u8> b(st.st_size); if(!read_all(fd, b.data(), b.size())) return 3; close(fd); string err; if(!load_pe(b.data(), b.size(), &img, &err)){ fprintf(stderr, "%s\n", err.c_str()); return 3; } }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for(;;){
        u32 n; if(!read_all(0, &n, 4)) return 0; string in(n, 0); if(!read_all(0, &in[0], n)) return 0;
        auto job = tlv_parse(in.data(), n); *(volatile u64 *)shm = 0;
        fflush(0); pid_t p = fork(); if(p == 0){ prctl(PR_SET_PDEATHSIG, SIGKILL); int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); run_child(job); _exit(7); }
        int st = 0; while(waitpid(p, &st, 0) < 0 && errno == EINTR); u64 k = *(volatile u64 *)shm; Buf b; const char *d; size_t dn;
        if(!k){ char m[128]; snprintf(m, sizeof m, "child ended without a result, wait status 0x%x", st); b.put("status", "simerror"); b.put("detail", m); d = b.d.data(); dn = b.d.size(); } else { d = (char *)shm + 8; dn = k; }
        u32 n32 = (u32)dn; if(!write_all(1, &n32, 4) || !write_all(1, d, dn)) return 0;
        if(k > (1 << 20)) madvise(shm, k + 8, MADV_REMOVE);
    }
}
