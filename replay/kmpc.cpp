// A small OpenMP runtime over pthreads (clang's __kmpc interface), so that the thread sanitizer sees every synchronisation.
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
static int nthreads = 4;
static __thread int tid = 0, team = 1, inpar = 0;
typedef void (*micro)(int32_t*, int32_t*, ...);
struct arg { micro f; int n; void** a; int id, team; };
static pthread_barrier_t bar;
static void call(micro f, int id, int n, void** a) {
	int32_t g = id, b = id;
#define A(i) a[i]
	switch(n) {
	case 0: f(&g,&b); break;
	case 1: f(&g,&b,A(0)); break;
	case 2: f(&g,&b,A(0),A(1)); break;
	case 3: f(&g,&b,A(0),A(1),A(2)); break;
	case 4: f(&g,&b,A(0),A(1),A(2),A(3)); break;
	case 5: f(&g,&b,A(0),A(1),A(2),A(3),A(4)); break;
	case 6: f(&g,&b,A(0),A(1),A(2),A(3),A(4),A(5)); break;
	case 7: f(&g,&b,A(0),A(1),A(2),A(3),A(4),A(5),A(6)); break;
	case 8: f(&g,&b,A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7)); break;
	default: {
		void* x[64]; for(int i = 0; i < 64; i++) x[i] = i < n ? a[i] : 0;
#define X(i) x[i],x[i+1],x[i+2],x[i+3],x[i+4],x[i+5],x[i+6],x[i+7]
		f(&g,&b,X(0),X(8),X(16),X(24),X(32),X(40),X(48),X(56)); } }
}
static void* run(void* p) { arg* x = (arg*) p; tid = x->id; team = x->team; inpar = 1; call(x->f, x->id, x->n, x->a); return 0; }
extern "C" {
void omp_set_num_threads(int n) { nthreads = n < 1 ? 1 : n; }
int omp_get_num_threads(void) { return team; }
int omp_get_max_threads(void) { return nthreads; }
int omp_get_thread_num(void) { return tid; }
int omp_get_num_procs(void) { return 8; }
double omp_get_wtime(void) { return 0; }
int32_t __kmpc_global_thread_num(void*) { return tid; }
void __kmpc_push_num_threads(void*, int32_t, int32_t n) { nthreads = n; }
void __kmpc_fork_call(void*, int32_t n, micro f, ...) {
	void* a[64]; va_list ap; va_start(ap, f); for(int i = 0; i < n && i < 64; i++) a[i] = va_arg(ap, void*); va_end(ap);
	if(inpar) { int t = tid, m = team; tid = 0; team = 1; call(f, 0, n, a); tid = t; team = m; return; }
	int k = nthreads > 64 ? 64 : nthreads;
	pthread_t th[64]; arg x[64];
	pthread_barrier_init(&bar, 0, k);
	for(int i = 1; i < k; i++) { x[i].f = f; x[i].n = n; x[i].a = a; x[i].id = i; x[i].team = k; if(pthread_create(&th[i], 0, run, &x[i])) abort(); }
	tid = 0; team = k; inpar = 1; call(f, 0, n, a); inpar = 0; team = 1;
	for(int i = 1; i < k; i++) pthread_join(th[i], 0);
	pthread_barrier_destroy(&bar);
}
void __kmpc_barrier(void*, int32_t) { if(team > 1) pthread_barrier_wait(&bar); }
void __kmpc_serialized_parallel(void*, int32_t) {}
void __kmpc_end_serialized_parallel(void*, int32_t) {}
// static schedule: one contiguous chunk per thread
#define INIT(NAME, T, U) \
void NAME(void*, int32_t, int32_t sched, int32_t* last, T* lo, T* hi, T* st, T inc, T chunk) { \
	T n = inc > 0 ? (*hi >= *lo ? (T) ((U) (*hi - *lo) / (U) inc + 1) : 0) : (*lo >= *hi ? (T) ((U) (*lo - *hi) / (U) (-inc) + 1) : 0); \
	T me = tid, k = team; \
	if(sched == 33) { if(chunk < 1) chunk = 1; *st = inc * chunk * k; T l = *lo + inc * chunk * me; *last = n > 0 && ((n - 1) / chunk) % k == me; *hi = l + inc * (chunk - 1); *lo = l; return; } \
	T small = n / k, ex = n % k; \
	T b = me * small + (me < ex ? me : ex), c = small + (me < ex); \
	T l = *lo; *st = inc * n; *last = c > 0 && b + c == n; \
	*lo = l + b * inc; *hi = c > 0 ? l + (b + c - 1) * inc : l + (b - 1) * inc; \
	if(c == 0) { *lo = l + inc * n; *hi = l + inc * (n - 1); } }
INIT(__kmpc_for_static_init_4, int32_t, uint32_t)
INIT(__kmpc_for_static_init_4u, uint32_t, uint32_t)
INIT(__kmpc_for_static_init_8, int64_t, uint64_t)
INIT(__kmpc_for_static_init_8u, uint64_t, uint64_t)
void __kmpc_for_static_fini(void*, int32_t) {}
// dynamic / guided schedules: handed out one iteration at a time, round robin
static __thread int64_t dlo, dhi, dst, dpos;
void __kmpc_dispatch_init_4(void*, int32_t, int32_t, int32_t lo, int32_t hi, int32_t st, int32_t) { dlo = lo; dhi = hi; dst = st; dpos = lo + (int64_t) st * tid; }
void __kmpc_dispatch_init_8(void*, int32_t, int32_t, int64_t lo, int64_t hi, int64_t st, int64_t) { dlo = lo; dhi = hi; dst = st; dpos = lo + st * tid; }
int32_t __kmpc_dispatch_next_4(void*, int32_t, int32_t* last, int32_t* lo, int32_t* hi, int32_t* st) {
	if(dst > 0 ? dpos > dhi : dpos < dhi) return 0;
	*lo = *hi = (int32_t) dpos; *st = (int32_t) dst; *last = dpos == dhi; dpos += dst * team; return 1; }
int32_t __kmpc_dispatch_next_8(void*, int32_t, int32_t* last, int64_t* lo, int64_t* hi, int64_t* st) {
	if(dst > 0 ? dpos > dhi : dpos < dhi) return 0;
	*lo = *hi = dpos; *st = dst; *last = dpos == dhi; dpos += dst * team; return 1; }
void __kmpc_dispatch_fini_4(void*, int32_t) {}
void __kmpc_dispatch_fini_8(void*, int32_t) {}
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
void __kmpc_critical(void*, int32_t, void*) { pthread_mutex_lock(&crit); }
void __kmpc_end_critical(void*, int32_t, void*) { pthread_mutex_unlock(&crit); }
int32_t __kmpc_single(void*, int32_t) { return tid == 0; }
void __kmpc_end_single(void*, int32_t) {}
int32_t __kmpc_master(void*, int32_t) { return tid == 0; }
void __kmpc_end_master(void*, int32_t) {}
}
