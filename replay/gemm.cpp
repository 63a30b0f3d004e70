// Replays solver-chosen configurations of the GEMM entry points on the real code.
// stdin: one configuration per line, "key=value ..." ; stdout: one line per configuration.
#include <string>
#include <map>
#include <vector>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include "cake.h"
#include "wraps.h"
static std::map<std::string, double> cfg;
static int gi(const char* k, int d) { auto it = cfg.find(k); return it == cfg.end() ? d : (int) it->second; }
static double gd(const char* k, double d) { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
static unsigned rs;
static unsigned rnd() { rs = rs * 1664525u + 1013904223u; return rs >> 9; }
// small integers: every partial sum is exact in float
static void fill(float* a, size_t n) { for(size_t i = 0; i < n; i++) a[i] = (float) ((int) (rnd() % 15) - 7); }
static int hashm(const float* a, size_t n) { unsigned h = 2166136261u; for(size_t i = 0; i < n; i++) { unsigned u; memcpy(&u, a + i, 4); h = (h ^ u) * 16777619u; } return (int) h; }
// operands too big to fill or check: only the sanitizers judge the run
static int huge(const std::string& entry) {
	int M = gi("M", 1), N = gi("N", 1), K = gi("K", 1), p = gi("p", 2);
	cake_cntx_t cn; memset(&cn, 0, sizeof cn);
	cn.alpha_n = 1; cn.peak_dram_bw = 32e9; cn.peak_flops = 600e9;
	update_mr_nr(&cn, gi("mr", 6), gi("nr", 16));
	cn.L1 = gi("L1", 32768); cn.L2 = gi("L2", 1 << 20); cn.L3 = gi("L3", 8 << 20); cn.ncores = gi("ncores", 4);
	float *A = (float*) calloc((size_t) M * K, 4), *B = (float*) calloc((size_t) K * N, 4), *C = (float*) calloc((size_t) M * N, 4);
	if(!A || !B || !C) return 0;
	auto f = entry == "online" ? cake_sgemm_online : entry == "2d" ? cake_sgemm_2d : cake_sgemm;
	f(A, B, C, M, N, K, p, &cn, NULL, 0, 0, 1, (float) gd("beta", 0), (enum sched) gi("sch", 0), gi("mc", 0), gi("kc", 0), gi("nc", 0));
	free(A); free(B); free(C);
	return 0;
}
static float* alloc(size_t n) { void* p; if(posix_memalign(&p, 64, n * sizeof(float) + 0)) abort(); return (float*) p; }

static int one(std::string& msg, std::string& entry) {
	if(gi("big", 0)) return huge(entry);
	int M = gi("M", 1), N = gi("N", 1), K = gi("K", 1), p = gi("p", 2);
	cake_cntx_t cn; memset(&cn, 0xA5, sizeof cn);
	cn.blis_cntx = NULL; cn.alpha_n = gd("alpha_n", 1.0); cn.peak_dram_bw = 32e9; cn.peak_flops = 600e9;
	cn.mr = 0; cn.nr = 0;
	if(gi("mr0", 0)) update_mr_nr(&cn, gi("mr0", 6), gi("nr0", 16));
	update_mr_nr(&cn, gi("mr", 6), gi("nr", 16));
	cn.L1 = gi("L1", 32768); cn.L2 = gi("L2", 1 << 20); cn.L3 = gi("L3", 8 << 20); cn.ncores = gi("ncores", 4);
	enum sched sch = (enum sched) gi("sch", 0);
	int mc = gi("mc", 0), kc = gi("kc", 0), nc = gi("nc", 0);
	float alpha = (float) gd("alpha", 1), beta = (float) gd("beta", 0);
	rs = (unsigned) gi("seed", 1) * 2654435761u + 12345u;
	float *A = alloc((size_t) M * K), *B = alloc((size_t) K * N), *C = alloc((size_t) M * N);
	fill(A, (size_t) M * K); fill(B, (size_t) K * N);
	if(beta != 0) fill(C, (size_t) M * N);
	else for(size_t i = 0; i < (size_t) M * N; i++) C[i] = NAN;   // must all be overwritten
	std::vector<double> ref((size_t) M * N, 0.0);
	for(int i = 0; i < M; i++) for(int k = 0; k < K; k++) for(int j = 0; j < N; j++) ref[(size_t) i * N + j] += (double) A[(size_t) i * K + k] * B[(size_t) k * N + j];
	for(size_t i = 0; i < (size_t) M * N; i++) ref[i] = alpha * ref[i] + (beta != 0 ? beta * C[i] : 0);
	int ha = hashm(A, (size_t) M * K), hb = hashm(B, (size_t) K * N);
	bool pa = gi("pa", 0), pb = gi("pb", 0);
	float *Ain = A, *Bin = B, *Ap = NULL, *Bp = NULL;
	omp_set_num_threads(p);
	if(pa || pb) {      // the caller packs with the library's own helpers
		blk_dims_t x; memset(&x, 0xA5, sizeof x);
		cake_cntx_t c2 = cn;
		init_block_dims(M, N, K, p, &x, &c2, sch, NULL, 4, mc, kc, nc);
		if(pa) { void* q; if(posix_memalign(&q, 64, cake_sgemm_packed_A_size(M, K, p, &x, &c2, x.sch))) abort(); Ap = (float*) q; pack_A(A, Ap, M, K, p, &x, &c2, x.sch); Ain = Ap; }
		if(pb) { void* q; if(posix_memalign(&q, 64, cake_sgemm_packed_B_size(K, N, p, &x, &c2))) abort(); Bp = (float*) q; pack_B(B, Bp, K, N, p, &x, &c2, x.sch); Bin = Bp; }
	}
	int reps = gi("reps", 1);
	cake_cntx_t* ctx = &cn;
	if(gi("own", 0)) ctx = NULL;
	if(gi("stale", 0)) cn.alpha_n = gi("stale", 0) == 1 ? 1e9 : 0;
	cake_cntx_t before = cn;
	std::unordered_set<void*> blocks;
	if(gi("leak", 0)) live = &blocks;
	// another multiplication before the call that counts
	int hist = !pa && !pb && beta == 0 ? gi("hist", 0) : 0;
	auto call = [&](const float* a, const float* b, float* c, int M, int N, int K, int p, cake_cntx_t* ctxt, enum sched sc, int mc, int kc, int nc) {
		auto f = entry == "online" ? cake_sgemm_online : entry == "2d" ? cake_sgemm_2d : cake_sgemm;
		f((float*) a, (float*) b, c, M, N, K, p, ctxt, NULL, 0, 0, 1, 0, sc, mc, kc, nc);
	};
	for(int r = 0; r < reps; r++) {
		if(hist) {
			int h = hist - 1, m = M, n = N, k = K, q = p, c1 = mc, c2 = kc, c3 = nc; enum sched sc = sch;
			cake_cntx_t* ctxt = &cn; cake_cntx_t other = cn;
			if(h == 0 || h == 3) m = 2 * M + 7;
			if(h == 1 || h == 3) n = 2 * N + 17;
			if(h == 2 || h == 3) k = 2 * K + 3;
			if(h == 4) { q = p + 1; if(entry == "2d") q = 2 * p; }
			if(h == 5) { m = (M + 1) / 2; n = (N + 1) / 2; k = (K + 1) / 2; }
			if(h == 6 && mc) { c1 = 2 * mc; c2 = 2 * kc; c3 = 2 * nc; }
			if(h == 7) { other.L1 *= 2; other.L2 *= 3; other.L3 *= 2; other.ncores++; ctxt = &other; }
			if(h == 8 && entry == "sgemm") sc = (enum sched) ((sch + 1) % 3);
			float *a = (float*) calloc((size_t) m * k, 4), *b = (float*) calloc((size_t) k * n, 4), *c = (float*) calloc((size_t) m * n, 4);
			if(h == 9) {      // the same matrices with other contents
				for(size_t i = 0; i < (size_t) M * K; i++) A[i] += 1;
				for(size_t i = 0; i < (size_t) K * N; i++) B[i] += 1;
				call(A, B, C, m, n, k, q, ctxt, sc, c1, c2, c3);
				for(size_t i = 0; i < (size_t) M * K; i++) A[i] -= 1;
				for(size_t i = 0; i < (size_t) K * N; i++) B[i] -= 1;
			} else call(a, b, c, m, n, k, q, ctxt, sc, c1, c2, c3);
			free(a); free(b); free(c);
			omp_set_num_threads(p);
			if(gi("stale", 0)) cn.alpha_n = gi("stale", 0) == 1 ? 1e9 : 0;
			for(size_t i = 0; i < (size_t) M * N; i++) C[i] = NAN;
		}
		if(entry == "sgemm") cake_sgemm(Ain, Bin, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, sch, mc, kc, nc);
		else if(entry == "online") cake_sgemm_online(Ain, Bin, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, sch, mc, kc, nc);
		else if(entry == "2d") cake_sgemm_2d(Ain, Bin, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, sch, mc, kc, nc);
		else if(entry == "2dsmall") cake_sgemm_2d_small(Ain, Bin, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, sch);
		else if(entry == "test") cake_sgemm_test(Ain, Bin, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, sch);
		else abort();
		if(gi("nocheck", 0)) continue;
		for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) {
			double e = ref[(size_t) i * N + j], g = C[(size_t) i * N + j];
			if(!(e == g)) { char b[200]; snprintf(b, sizeof b, "wrong result: C[%d][%d] = %g, expected %g", i, j, g, e); msg = b; return 1; }
		}
		if(beta != 0) break;
	}
	live = NULL;
	if(gi("leak", 0) && (blocks.size() || streams)) { char b[200]; snprintf(b, sizeof b, "%zu blocks and %ld streams are not released", blocks.size(), streams); msg = b; return 1; }
	before.alpha_n = cn.alpha_n;
	if(memcmp(&before, &cn, sizeof cn)) { msg = "the context was changed"; return 1; }
	if(ha != hashm(A, (size_t) M * K) || hb != hashm(B, (size_t) K * N)) { msg = "an input matrix was modified"; return 1; }
	free(A); free(B); free(C); free(Ap); free(Bp);
	return 0;
}

int main(int argc, char** argv) {
	std::string line;
	int lim = argc > 1 ? atoi(argv[1]) : 60;
	char* shm = (char*) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int n = 0;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); std::string t, entry = "sgemm";
		cfg.clear();
		while(is >> t) { size_t e = t.find('='); if(e == std::string::npos) continue; std::string k = t.substr(0, e), v = t.substr(e + 1); if(k == "entry") entry = v; else cfg[k] = atof(v.c_str()); }
		shm[0] = 0;
		fflush(stdout);
		int runs = gi("stale", 0) && !gi("hist", 0) ? 11 : 1, st = 0;      // a fresh process, and one per kind of earlier use
		for(int u = 0; u < runs && !st; u++) {
		if(runs > 1) cfg["hist"] = u;
		pid_t c = fork();
		if(c == 0) { alarm(lim); freopen("/dev/null", "w", stdout); std::string msg; int r = one(msg, entry); snprintf(shm, 4000, "%s", msg.c_str()); fflush(stderr); _exit(r ? 3 : 0); }
		waitpid(c, &st, 0);
		}
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("RES %d ok\n", n);
		else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) printf("RES %d bad %s\n", n, shm);
		else if(WIFEXITED(st)) printf("RES %d bad exit status %d (sanitizer or exit)\n", n, WEXITSTATUS(st));
		else printf("RES %d bad killed by signal %d\n", n, WTERMSIG(st));
		fflush(stdout);
		n++;
	}
}
