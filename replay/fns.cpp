// Replays solver-chosen inputs of single functions on the real code.
// stdin: one configuration per line, "fn=... key=value ..." ; stdout: one line per configuration.
#include <string>
#include <map>
#include <vector>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <stdarg.h>
#include "cake.h"
#include "wraps.h"
static std::map<std::string, double> cfg;
static std::map<std::string, std::string> str;
static int gi(const char* k, int d) { auto it = cfg.find(k); return it == cfg.end() ? d : (int) it->second; }
static std::string why;
static bool bad(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if(why.empty()) why = b; return false; }
#define NEED(c, ...) do { if(!(c)) return bad(__VA_ARGS__); } while(0)

static void context(cake_cntx_t* cn) {
	memset(cn, 0xA5, sizeof *cn);
	cn->blis_cntx = NULL; cn->alpha_n = 1.0; cn->peak_dram_bw = 32e9; cn->peak_flops = 600e9;
	if(gi("mr0", 0)) update_mr_nr(cn, gi("mr0", 6), gi("nr0", 16));      // the tile it had before
	update_mr_nr(cn, gi("mr", 6), gi("nr", 16));
	cn->L1 = gi("L1", 32768); cn->L2 = gi("L2", 1 << 20); cn->L3 = gi("L3", 8 << 20); cn->ncores = gi("ncores", 4);
}
typedef long long ll;
// total = full blocks of `unit` and a remainder
static bool axis(const char* n, ll total, ll unit, ll pad, ll blocks, ll& fb, ll& rem) {
	NEED(unit > 0, "%s: block of size %lld", n, unit);
	fb = total / unit; rem = total % unit;
	NEED(pad == (rem > 0), "%s: pad flag %lld, remainder %lld", n, pad, rem);
	NEED(blocks == fb + (rem > 0), "%s: %lld blocks instead of %lld", n, blocks, fb + (rem > 0));
	return true;
}
static bool split(const char* n, ll amount, ll per, ll last, ll used, ll q) {
	NEED(used >= 1 && used <= q, "%s: %lld of %lld cores used", n, used, q);
	NEED(last >= 1 && last <= per, "%s: shares %lld, last %lld", n, per, last);
	NEED((used - 1) * per + last == amount, "%s: %lld shares of %lld and %lld do not add up to %lld", n, used - 1, per, last, amount);
	return true;
}
static bool tiles(const char* n, ll rem, ll r, ll cnt) { NEED(cnt * r >= rem && cnt * r < rem + r, "%s: %lld tiles of %lld for %lld", n, cnt, r, rem); return true; }

static bool blk() {
	int M = gi("M", 1), N = gi("N", 1), K = gi("K", 1), p = gi("p", 1), mr = gi("mr", 6), nr = gi("nr", 16), sch = gi("sch", 0), mc = gi("mc", 6), kc = gi("kc", 1), nc = gi("nc", 16);
	cake_cntx_t cn; context(&cn);
	blk_dims_t x; memset(&x, 0xA5, sizeof x);
	init_block_dims(M, N, K, p, &x, &cn, (enum sched) sch, NULL, 4, mc, kc, nc);
	NEED(x.m_c == mc && x.k_c == kc && x.n_c == nc, "tiles %d %d %d are not the ones given", x.m_c, x.k_c, x.n_c);
	NEED((int) x.sch == sch, "schedule %d instead of %d", (int) x.sch, sch);
	ll fb, rem;
	if(!axis("N", N, nc, x.n_pad, x.Nb, fb, rem)) return false;
	if(rem) { if(!tiles("N", rem, nr, x.nr_rem)) return false; NEED(x.n_c1 == nr * x.nr_rem, "width of the last N block %d", x.n_c1); }
	NEED(x.N_padded == fb * nc + (rem ? nr * x.nr_rem : 0), "padded N %d", x.N_padded);
	ll um = sch == MKN ? mc : (ll) p * mc;
	if(!axis("M", M, um, x.m_pad, x.Mb, fb, rem)) return false;
	if(rem) {
		if(!tiles("M", rem, mr, x.mr_rem)) return false;
		if(sch == KMN) { if(!split("M", mr * x.mr_rem, x.m_c1, x.m_c1_last_core, x.p_l, p)) return false; }
		else NEED(x.m_c1 == mr * x.mr_rem, "height of the last M block %d", x.m_c1);
	}
	NEED(x.M_padded == fb * um + (rem ? mr * x.mr_rem : 0), "padded M %d", x.M_padded);
	ll uk = sch == KMN ? kc : (ll) p * kc;
	if(!axis("K", K, uk, x.k_pad, x.Kb, fb, rem)) return false;
	if(rem) {
		if(sch == KMN) NEED(x.k_c1 == rem, "depth of the last K block %d", x.k_c1);
		else if(!split("K", rem, x.k_c1, x.k_c1_last_core, x.p_l, p)) return false;
	}
	return true;
}
static bool blk2d() {
	int M = gi("M", 1), N = gi("N", 1), K = gi("K", 1), p = gi("p", 1), mr = gi("mr", 6), nr = gi("nr", 16);
	cake_cntx_t cn; context(&cn);
	blk_dims_t x; memset(&x, 0xA5, sizeof x);
	init_block_dims_2d(M, N, K, p, &x, &cn, KMN, NULL, 4, gi("mc", 0), gi("kc", 0), gi("nc", 0));
	NEED(x.pm >= 1 && x.pn >= 1 && (ll) x.pm * x.pn <= p, "grid %d x %d for %d threads", x.pm, x.pn, p);
	NEED(x.m_c >= 1 && x.m_c % mr == 0 && x.n_c >= 1 && x.n_c % nr == 0 && x.k_c >= 1, "tiles %d %d %d", x.m_c, x.k_c, x.n_c);
	ll fb, rem;
	if(!axis("M", M, (ll) x.pm * x.m_c, x.m_pad, x.Mb, fb, rem)) return false;
	if(rem) { if(!tiles("M", rem, mr, x.mr_rem)) return false; if(!split("M", mr * x.mr_rem, x.m_c1, x.m_c1_last_core, x.pm_l, x.pm)) return false; }
	NEED(x.M_padded == fb * x.pm * x.m_c + (rem ? mr * x.mr_rem : 0), "padded M %d", x.M_padded);
	if(!axis("N", N, (ll) x.pn * x.n_c, x.n_pad, x.Nb, fb, rem)) return false;
	if(rem) { if(!tiles("N", rem, nr, x.nr_rem)) return false; if(!split("N", nr * x.nr_rem, x.n_c1, x.n_c1_last_core, x.pn_l, x.pn)) return false; }
	NEED(x.N_padded == fb * x.pn * x.n_c + (rem ? nr * x.nr_rem : 0), "padded N %d", x.N_padded);
	if(!axis("K", K, x.k_c, x.k_pad, x.Kb, fb, rem)) return false;
	if(rem) NEED(x.k_c1 == rem, "depth of the last K block %d", x.k_c1);
	return true;
}
#include "fns_more.h"

static bool one() {
	std::string f = str["fn"];
	if(f == "blk") return blk();
	if(f == "blk2d") return blk2d();
	return more(f);
}

int main(int argc, char** argv) {
	std::string line;
	int lim = argc > 1 ? atoi(argv[1]) : 60;
	char* shm = (char*) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int n = 0;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); std::string t;
		cfg.clear(); str.clear();
		while(is >> t) { size_t e = t.find('='); if(e == std::string::npos) continue; std::string k = t.substr(0, e), v = t.substr(e + 1); str[k] = v; cfg[k] = atof(v.c_str()); }
		shm[0] = 0;
		fflush(stdout);
		pid_t c = fork();
		if(c == 0) { alarm(lim); freopen("/dev/null", "w", stdout); why.clear(); bool r = one(); snprintf(shm, 4000, "%s", why.c_str()); fflush(stderr); _exit(r ? 0 : 3); }
		int st; waitpid(c, &st, 0);
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("RES %d ok\n", n);
		else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) printf("RES %d bad %s\n", n, shm);
		else if(WIFEXITED(st)) printf("RES %d bad exit status %d (sanitizer or exit)\n", n, WEXITSTATUS(st));
		else printf("RES %d bad killed by signal %d\n", n, WTERMSIG(st));
		fflush(stdout);
		n++;
	}
}
