// exact arithmetic on small integers: every order of summation gives the same floats
static float small(int i, int j, int s) { return (float) ((((i * 7 + j * 13 + s * 5) % 9) + 9) % 9 - 4); }

static bool kern() {
	int R = gi("mr", 6), S = gi("nr", 16), k = gi("k", 1);
	cake_cntx_t cn; context(&cn);
	std::vector<float> A((size_t) k * R), C((size_t) R * S), E;
	float* B = NULL; if(posix_memalign((void**) &B, 64, sizeof(float) * (size_t) k * S)) return bad("memory");
	for(int x = 0; x < k; x++) { for(int i = 0; i < R; i++) A[x * R + i] = small(x, i, 1); for(int j = 0; j < S; j++) B[x * S + j] = small(x, j, 2); }
	for(int i = 0; i < R * S; i++) C[i] = small(i, 3, 3);
	E = C;
	for(int i = 0; i < R; i++) for(int j = 0; j < S; j++) for(int x = 0; x < k; x++) E[i * S + j] += A[x * R + i] * B[x * S + j];
	float* a = (float*) malloc(sizeof(float) * A.size()); memcpy(a, A.data(), sizeof(float) * A.size());
	float* c = (float*) malloc(sizeof(float) * C.size()); memcpy(c, C.data(), sizeof(float) * C.size());
	cake_sgemm_ukernel(a, B, c, R, S, k, &cn);
	for(int i = 0; i < R * S; i++) NEED(c[i] == E[i], "tile element (%d,%d) is %g instead of %g", i / S, i % S, c[i], E[i]);
	free(a); free(c); free(B);
	return true;
}
static bool ctrip() {
	int M = gi("M", 1), N = gi("N", 1), p = gi("p", 1), sch = gi("sch", 0);
	cake_cntx_t cn; context(&cn);
	blk_dims_t x; memset(&x, 0xA5, sizeof x);
	init_block_dims(M, N, gi("kc", 1), p, &x, &cn, (enum sched) sch, NULL, 4, gi("mc", 6), gi("kc", 1), gi("nc", 16));
	float* C = (float*) malloc(sizeof(float) * M * N); float* D = (float*) malloc(sizeof(float) * M * N); float* P = NULL;
	if(posix_memalign((void**) &P, 64, cake_sgemm_packed_C_size(M, N, p, &x, &cn, (enum sched) sch))) return bad("memory");
	for(int i = 0; i < M * N; i++) { C[i] = (float) (i + 1); D[i] = -1; }
	pack_C(C, P, M, N, p, &x, &cn, (enum sched) sch);
	unpack_C(D, P, M, N, p, &x, &cn, (enum sched) sch);
	for(int i = 0; i < M * N; i++) { NEED(C[i] == (float) (i + 1), "source changed at %d", i); NEED(D[i] == C[i], "element (%d,%d) is %g instead of %g", i / N, i % N, D[i], C[i]); }
	free(C); free(D); free(P);
	return true;
}
void transpose(float* At, float* A, int M, int K);
static bool transposed(bool plain) {
	int H = gi(plain ? "M" : "K", 1), W = gi(plain ? "K" : "N", 1);   // source H x W, destination W x H
	float* A = (float*) malloc(sizeof(float) * H * W); float* T = (float*) malloc(sizeof(float) * H * W);
	for(int i = 0; i < H * W; i++) { A[i] = (float) (i + 1); T[i] = -1; }
	if(plain) transpose(T, A, H, W);
#ifndef USE_CAKE_ARMV8
	else transpose_mat(A, T, H, W, gi("Kt", 8), gi("Nt", 8));
#endif
	for(int i = 0; i < H; i++) for(int j = 0; j < W; j++) {
		NEED(A[i * W + j] == (float) (i * W + j + 1), "source changed at (%d,%d)", i, j);
		NEED(T[j * H + i] == A[i * W + j], "source element (%d,%d) is %g at its mirrored place", i, j, T[j * H + i]);
	}
	free(A); free(T);
	return true;
}
static std::map<std::string, std::string> said;
static void commands() { for(const char* k : {"cpu", "thr", "soc", "model", "cache"}) said[k] = str.count(k) ? str[k] : "-"; answers = &said; }
static bool queried() { NEED(streams == 0, "%ld streams are left open", streams); return true; }
static bool ncoresq() {
	commands();
	int r = get_num_physical_cores();
	NEED(r >= 1, "%d cores", r);
	if(!queried()) return false;
	auto n = [](const char* k) { return said[k] == "-" ? 1 : atoi(said[k].c_str()); };
	int cpu = n("cpu"), t = n("thr");
	if(said["soc"] == "-" && t >= 1 && cpu >= t) NEED(r == cpu / t, "%d cores for %d processors with %d threads each", r, cpu, t);
	return true;
}
static bool csize() {
	commands();
	for(int l = 1; l <= 3; l++) if(l != gi("level", 1)) get_cache_size(l);      // whatever was asked before
	int r = get_cache_size(gi("level", 1));
	if(!queried()) return false;
	std::string c = said["cache"];
	bool known = false;
	if(c != "-") {      // a known model answers without asking for the cache size
		std::string m = said["model"]; said["cache"] = "-"; int f = get_cache_size(gi("level", 1)); said["cache"] = c + ""; known = f == r && f >= 1024;
		int w = atoi(c.c_str()) << (c.back() == 'K' ? 10 : c.back() == 'M' ? 20 : 30);
		NEED(r == w || known, "level %d: %d bytes, the command printed %s", gi("level", 1), r, c.c_str());
	} else NEED(r >= 1024, "fallback size %d", r);
	return true;
}
static bool query() {
	// the fields are initialised: the same values whatever the fresh memory held (valgrind-free check)
	cake_cntx_t* x = gi("torch", 0) ? cake_query_cntx_torch(gi("L2", 1 << 20), gi("L3", 1 << 23)) : cake_query_cntx();
	NEED(x->ncores >= 1, "%d cores", x->ncores);
	NEED(x->blis_cntx == NULL && x->mr == MR_MIN && x->nr == NR_MIN && x->m_map == 0 && x->n_map == 0, "register tile %dx%d, kernel %d,%d", x->mr, x->nr, x->m_map, x->n_map);
	NEED(x->L1 >= 1, "L1 %d", x->L1);
	if(gi("torch", 0)) NEED(x->L2 == gi("L2", 1 << 20) && x->L3 == gi("L3", 1 << 23), "L2 %d L3 %d", x->L2, x->L3);
	else NEED(x->L2 == get_cache_size(2) && x->L3 == get_cache_size(3) && x->L1 == get_cache_size(1), "sizes %d %d %d", x->L1, x->L2, x->L3);
	NEED(x->ncores == get_num_physical_cores(), "%d cores", x->ncores);
	free(x);
	return queried();
}
static bool gridq() {
	int p = gi("p", 1), r = grid_dims_2d(gi("M", 1), gi("N", 1), gi("K", 1), p, gi("cores", 4));
	NEED(r >= 1 && r <= p && p % r == 0, "%d columns for %d threads", r, p);
	return true;
}
static bool autot() {
	int M = gi("M", 1), N = gi("N", 1), K = gi("K", 1), p = gi("p", 1), mr = gi("mr", 6), nr = gi("nr", 16), sch = gi("sch", 0), two = gi("two", 0);
	blk_dims_t *x = (blk_dims_t*) mmap(NULL, 14 * sizeof(blk_dims_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for(int i = 0; i < 12; i++) {      // a fresh context in a fresh process, and in others some that were used before
		pid_t c = fork();
		int st = 0;
		if(c) {
			waitpid(c, &st, 0);
			NEED(WIFEXITED(st), "killed by signal %d", WTERMSIG(st));
			NEED(WEXITSTATUS(st) != 1, "the context was changed, or the library gave up");
			NEED(WEXITSTATUS(st) == 0, "exit status %d (sanitizer or exit)", WEXITSTATUS(st));
			NEED(!memcmp(&x[i], &x[0], sizeof x[0]), "the blocks depend on what was computed before");
			continue;
		}
		alarm(60);
		cake_cntx_t cn; context(&cn);
		if(i > 2) {
			int h = i - 3, m = M, n = N, k = K, q = p, t = two; enum sched sc = (enum sched) sch;
			cake_cntx_t other = cn; blk_dims_t y;
			if(h == 0 || h == 3) m = 2 * M + 7;
			if(h == 1 || h == 3) n = 2 * N + 17;
			if(h == 2 || h == 3) k = 2 * K + 3;
			if(h == 4) q = 2 * p;
			if(h == 5) { m = (M + 1) / 2; n = (N + 1) / 2; k = (K + 1) / 2; }
			if(h == 6) { other.L1 *= 2; other.L2 /= 2; other.L3 *= 2; other.ncores++; }
			if(h == 7) sc = (enum sched) ((sch + 1) % 4);
			if(h == 8) update_mr_nr(&other, mr == 6 ? 8 : 6, nr == 16 ? 32 : 16);
			if(t) init_block_dims_2d(m, n, k, q, &y, &other, KMN, NULL, 4, 0, 0, 0); else init_block_dims(m, n, k, q, &y, &other, sc, NULL, 4, 0, 0, 0);
		}
		if(i) cn.alpha_n = i == 1 ? 1e9 : 0;
		cake_cntx_t was = cn;
		memset(&x[i], 0xA5, sizeof x[i]);
		if(two) init_block_dims_2d(M, N, K, p, &x[i], &cn, KMN, NULL, 4, 0, 0, 0); else init_block_dims(M, N, K, p, &x[i], &cn, (enum sched) sch, NULL, 4, 0, 0, 0);
		was.alpha_n = cn.alpha_n;
		if(memcmp(&was, &cn, sizeof cn)) _exit(1);
		_exit(0);
	}
	if(!two) NEED((int) x->sch == sch || (sch == 3 && (int) x->sch >= 0 && (int) x->sch < 3), "schedule %d for a request of %d", (int) x->sch, sch);
	NEED(x->m_c >= mr && x->m_c % mr == 0 && x->n_c >= nr && x->n_c % nr == 0 && x->k_c >= 1, "tiles %d %d %d", x->m_c, x->k_c, x->n_c);
	return true;
}
static std::vector<float> list(const char* k) {
	std::vector<float> v; std::istringstream is(str[k]); std::string t;
	while(std::getline(is, t, ',')) { unsigned u = (unsigned) strtoul(t.c_str(), 0, 10); float f; memcpy(&f, &u, 4); v.push_back(f); }
	return v;
}
// 1: must be reported, 0: must not, -1: too close to the tolerance
static int differ(const std::vector<float>& C, const std::vector<double>& D, double slack) {
	int r = 0;
	for(size_t i = 0; i < C.size(); i++) {
		double c = C[i], d = D[i];
		if(isnan(c) && isnan(d)) { if(r == 0) r = -1; continue; }
		if(isnan(c) || isnan(d)) return 1;
		if(c == d) continue;
		double x = fabs(c - d);
		if(x > 1.1e-3 + slack) return 1;
		if(!(x < .9e-3 - slack)) r = -1;
	}
	return r;
}
static float* exact(const std::vector<float>& v) { float* p = (float*) malloc(sizeof(float) * v.size()); memcpy(p, v.data(), sizeof(float) * v.size()); return p; }
static bool checkers(const std::string& f) {
	int M = gi("M", 1), N = gi("N", 1), K = gi("K", 1), p = gi("p", 1);
	std::vector<float> C = list("C"), A, B; std::vector<double> D((size_t) M * N, 0.0);
	double big = 0;
	float* c = exact(C);
	bool r;
	if(f == "matequals") { std::vector<float> d = list("D"); for(size_t i = 0; i < d.size(); i++) D[i] = d[i]; float* q = exact(d); r = mat_equals(c, q, M, N); free(q); }
	else if(f == "gemmcheck") {
		A = list("A"); B = list("B");
		for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) for(int k = 0; k < K; k++) { double t = (double) A[i * K + k] * B[k * N + j]; D[i * N + j] += t; big += fabs(t); }
		float *a = exact(A), *b = exact(B); r = cake_sgemm_checker(a, b, c, N, M, K); free(a); free(b);
	} else {
		std::vector<float*> X;
		for(int t = 0; t < p; t++) { std::vector<float> x = list(("X" + std::to_string(t)).c_str()); for(size_t i = 0; i < x.size(); i++) { D[i] += x[i]; big += fabs(x[i]); } X.push_back(exact(x)); }
		r = add_checker(X.data(), c, M, N, p);
		for(float* x : X) free(x);
	}
	free(c);
	int w = f == "matequals" && 0 ? 0 : differ(C, D, f == "matequals" ? 0 : big * 1e-6);
	NEED(w < 0 || r == (w == 1), "%s although the matrices %s", r ? "reported as different" : "not reported", w ? "differ" : "agree");
	return true;
}
static bool more(const std::string& f) {
	if(f == "kern") return kern();
	if(f == "ctrip") return ctrip();
	if(f == "tplain") return transposed(true);
	if(f == "tmat") return transposed(false);
	if(f == "ncores") return ncoresq();
	if(f == "csize") return csize();
	if(f == "query") return query();
	if(f == "grid") return gridq();
	if(f == "auto") return autot();
	if(f == "matequals" || f == "gemmcheck" || f == "addcheck") return checkers(f);
	return bad("unknown function %s", f.c_str());
}
