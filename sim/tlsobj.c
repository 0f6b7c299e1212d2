#pragma section(".tls")
#pragma section(".tls$ZZZ")
#pragma section(".rdata$T", read)
unsigned _tls_index;
__declspec(allocate(".tls")) char _tls_start = 0;
__declspec(allocate(".tls$ZZZ")) char _tls_end = 0;
typedef unsigned long long u;
__declspec(allocate(".rdata$T")) const struct { void *s,*e,*i,*c; unsigned z,f; } _tls_used = { &_tls_start, &_tls_end, &_tls_index, 0, 0, 0 };
__declspec(thread) char __tls_guard = 1;
void __dyn_tls_on_demand_init(void){}
