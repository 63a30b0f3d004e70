From 11f5977aec8cfeac540cf7255e615be2f1e03cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 01/13] fix: cake_sgemm_online reads past the last row of A and
 column of B

The online schedule packs whole register tiles, so an edge tile read rows
>= M of A and columns >= N of B. Pack edge tiles with zero padding.
---
 src/cake_sgemm_k_first.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..e2d4604 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -729,8 +729,14 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
-			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
+			         	if((n1 + n2 + n_r) > N) {
+			         		// edge tile, pad with zeros instead of reading past N
+			         		pack_ob_B_single_buf(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], 
+			         			K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			         	} else {
+			         		B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+			         	}
 			      	}
 				}
 
@@ -758,8 +764,14 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
-							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
-								&A_p[core][m3*k_c_t], m_r);
+							if((m1 + core*m_c_x + m3 + m_r) > M) {
+								// edge tile, pad with zeros instead of reading past M
+								pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+									M, K, m1, core*m_c_x + m3, m_r, k_c_t, m_r, 1);
+							} else {
+								A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
+									&A_p[core][m3*k_c_t], m_r);
+							}
 						}     
 		            }
 
-- 
2.43.0


From 195c07cb9d82c3f50ac1519d53492f72026f9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 02/13] fix: cake_sgemm_2d reads past the last row of A and
 column of B

Same defect as in the online schedule: edge register tiles were packed
without bounds. Pack them with zero padding.
---
 src/cake_sgemm_k_first.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index e2d4604..c259070 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -377,8 +377,14 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
-			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
+			         	if((n1 + n2 + n_r) > N) {
+			         		// edge tile, pad with zeros instead of reading past N
+			         		pack_ob_B_single_buf(&B[B_offset + n2], &B_p[n2*k_c_t], 
+			         			K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			         	} else {
+			         		B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+			         	}
 			      	}
 				}
 		
@@ -388,8 +394,14 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
-						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
-							&A_p[m3*k_c_t], m_r);
+						if((m1 + m3 + m_r) > M) {
+							// edge tile, pad with zeros instead of reading past M
+							pack_ob_A_single_buf(&A[A_offset + m3*K], &A_p[m3*k_c_t], 
+								M, K, m1, m3, m_r, k_c_t, m_r, 1);
+						} else {
+							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
+								&A_p[m3*k_c_t], m_r);
+						}
 					}     
 				}
 
-- 
2.43.0


From 3dd263988b4a38aa688dc1cd43e61c0639610a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 03/13] fix: M-first and N-first packing of B reads past the
 end of B

The zero-padding flag handed to pack_ob_B_single_buf was set from the K
edge instead of the N edge, so an unpadded copy was taken for the last
column block on every core but the last, and on all of them when K is a
multiple of the K block.
---
 src/pack_m_first.cpp | 8 ++++----
 src/pack_n_first.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..5d8fb47 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -95,15 +95,18 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
 
    int n, n1, k, B_offset = 0, B_p_offset = 0;
    int k_cb, n_c_t, p_used, core;
+   bool pad_n;
 
    for(n = 0; n < Nb; n++) {
 
       if((n == Nb - 1) && n_pad) {
          n_c_t = n_c1;
          n1 = (N - (N % n_c));
+         pad_n = 1;
       } else {
          n_c_t = n_c;
          n1 = n*n_c;
+         pad_n = 0;
       }
 
       for(k = 0; k < Kb; k++) {
@@ -122,20 +125,17 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, pad_n);
          }
 
          B_p_offset += k_cb*n_c_t;
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..14b8e2b 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -95,6 +95,7 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
 
    int n, n1, k, B_offset = 0, B_p_offset = 0;
    int k_cb, n_c_t, p_used, core;
+   bool pad_n;
 
    for(k = 0; k < Kb; k++) {
 
@@ -111,9 +112,11 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          if((n == Nb - 1) && n_pad) {
             n_c_t = n_c1;
             n1 = (N - (N % n_c));
+            pad_n = 1;
          } else {
             n_c_t = n_c;
             n1 = n*n_c;
+            pad_n = 0;
          }
 
          B_offset = k*p*k_c*N + n*n_c;
@@ -122,20 +125,17 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, pad_n);
          }
 
          B_p_offset += k_cb*n_c_t;
-- 
2.43.0


From c0e19cf9f2969eb276c91e15e6daf1f46dc61ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 04/13] fix: N-first packing of C uses the wrong block offset
 at the edges

Block n of a row of C blocks starts after n blocks of m_c_t*n_c elements,
which is where the schedule and unpack_C look for it.
---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 14b8e2b..c19fd58 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -202,7 +202,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From b36e24943e23cdf0ef59652a41443a0c7da5a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 05/13] fix: cake_sgemm_ukernel ignores the register tile of
 the context

The M-first, N-first and 2D schedules pack with the mr x nr chosen by
update_mr_nr but always ran the 6x16 kernel. Dispatch on the context's
kernel map, as the K-first schedules do.
---
 include/kernel_wrapper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index 6870f6c..156a187 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -31,10 +31,8 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 	bli_sgemm_haswell_asm_6x16(m_r, n_r, k_c_t, &alpha_blis, A_p, B_p, &beta_blis, C_p, 
 		(inc_t) n_r, (inc_t) 1, &def_data, (cntx_t*) cake_cntx->blis_cntx);
 
-#elif USE_CAKE_HASWELL
-	cake_sgemm_haswell_6x16(A_p, B_p, C_p, m_r, n_r, k_c_t);
-#elif USE_CAKE_ARMV8
-	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
+#elif USE_CAKE_HASWELL || USE_CAKE_ARMV8
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
 
 }
-- 
2.43.0


From 3ac4f8bfb52cb38b405d926c6f47261ed6c69f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 06/13] fix: grid_dims_2d returns an uninitialised grid and
 overruns its table

The search for a lower factor stopped before 1, leaving `low` unset (p=3,
pn=2), and the factor table was indexed out of bounds when p exceeds the
number of cores or is below the table's smallest row. Test the divisors of
p directly.
---
 src/block_sizing.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..1aeeb96 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -608,21 +608,20 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 	pn = (pn > p) ? p : pn;
 
 
-	// index into static table of factors to quickly find factor of p that is closest to optimal pn
-	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	// find factor of p that is closest to optimal pn
+	if((p % pn) == 0) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if((p % (i + 1)) == 0) {
 				high = i;
 				break;
 			}
 		}
 
-		for(int i = (pn - 2); i > 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+		for(int i = (pn - 2); i >= 0; i--) {
+			if((p % (i + 1)) == 0) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From e2437b53059c595f31b929e2f12bbae011463466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 07/13] fix: cake_query_cntx_torch leaves most of the context
 uninitialised

The kernel map indices, L1 size and core count were never set, although
every sgemm entry point reads them.
---
 src/block_sizing.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1aeeb96..f82f893 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -22,15 +22,23 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
 #elif USE_CAKE_HASWELL
     ret->blis_cntx = NULL;
-    ret->mr = 6;
-    ret->nr = 16;
+    ret->mr = MR_MIN;
+    ret->nr = NR_MIN;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
-    ret->mr = 8;
-    ret->nr = 12;
+    ret->mr = MR_MIN;
+    ret->nr = NR_MIN;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 #endif
 
+	ret->L1 = get_cache_size(1);
+	ret->ncores = get_num_physical_cores();
+	ret->peak_dram_bw = 32 * 1e9; // TODO : hardcoded bw and flops on i9 for now
+	ret->peak_flops = 600 * 1e9;
 	ret->L2 = L2;
 	ret->L3 = L3;
 	return ret;
-- 
2.43.0


From ffac22656a44c1c9d75a731ddd5e14566dba0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 08/13] fix: get_num_physical_cores leaks two of its three
 pipes

---
 src/block_sizing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index f82f893..109bb1f 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -113,7 +113,7 @@ int get_num_physical_cores() {
 	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
 		printf("cpuinfo error\n");
 	}
-	
+	pclose(fp);
 
 	char ret2[16];
 	char command2[128];
@@ -129,7 +129,7 @@ int get_num_physical_cores() {
 	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
 		printf("lscpu error\n");
 	}
-	
+	pclose(fp);
 
 	char ret3[16];
 	char command3[128];
-- 
2.43.0


From c5d95a7d93d8aca604b79c71f37e783dfbc4699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 09/13] fix: get_num_physical_cores reads uninitialised text or
 divides by zero

When lscpu prints no thread or socket count ("-" on several virtual and
ARM machines) the reply buffer was left uninitialised and then divided by;
with fewer processors online than threads the core count came out as 0.
---
 src/block_sizing.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 109bb1f..29ca995 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -99,7 +99,7 @@ void update_mr_nr(cake_cntx_t* cake_cntx, int m_r, int n_r) {
 int get_num_physical_cores() {
 
 	FILE *fp;
-	char ret1[16];
+	char ret1[16] = "1";
 	char command1[128];
 
 	sprintf(command1, "grep -c ^processor /proc/cpuinfo");
@@ -115,7 +115,7 @@ int get_num_physical_cores() {
 	}
 	pclose(fp);
 
-	char ret2[16];
+	char ret2[16] = "1";
 	char command2[128];
 
 	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
@@ -131,7 +131,7 @@ int get_num_physical_cores() {
 	}
 	pclose(fp);
 
-	char ret3[16];
+	char ret3[16] = "1";
 	char command3[128];
 
 	sprintf(command3, "lscpu | grep Socket -m 1 | tr -dc '0-9'");
@@ -147,7 +147,10 @@ int get_num_physical_cores() {
 	}
 
 	pclose(fp);
-	return atoi(ret1) / (atoi(ret2)*atoi(ret3));
+
+	int threads = atoi(ret2)*atoi(ret3);
+	int ncores = threads > 0 ? atoi(ret1) / threads : 0;
+	return ncores > 0 ? ncores : 1;
 }
 
 
-- 
2.43.0


From 414e34a36afbcee8712692abfa5c588aae6e84db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 10/13] fix: get_cache_size leaks a pipe and yields an L1 size
 of 0

The second popen stream was never closed, the reply buffer was read
uninitialised when lscpu printed no model, and a machine whose L1 is not
listed got size 0 (hence a negative K block in cake_sgemm_2d) instead of
the fallback the other levels have.
---
 src/block_sizing.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 29ca995..2e230e7 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -160,7 +160,7 @@ int get_cache_size(int level) {
 
 	int model_id, len, size = 0;
 	FILE *fp;
-	char ret[16];
+	char ret[16] = "0";
 	char command[128];
 
 	sprintf(command, "lscpu | grep Model \
@@ -281,10 +281,13 @@ int get_cache_size(int level) {
 		exit(1);
 	}
 
-	if(fgets(ret, sizeof(ret), fp) == NULL) {
+	bool found = (fgets(ret, sizeof(ret), fp) != NULL);
+	pclose(fp);
+
+	if(!found) {
 		printf("lscpu error\n");
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
-		if(level == 2) {
+		if(level == 1 || level == 2) {
 			return (32 * (1 << 10));
 		} else if(level == 3) {
 			return (512 * (1 << 10));
-- 
2.43.0


From 2a00c63cc3e63edb262aa8d6b971e21ccd640784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 11/13] fix: the sgemm entry points leak the context they query
 for themselves

---
 src/cake_sgemm.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..507af68 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -11,8 +11,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -170,6 +172,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return diff_t;
 }
@@ -181,8 +184,10 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -242,6 +247,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -254,8 +260,10 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -313,6 +321,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -399,8 +408,10 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -463,6 +474,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -474,8 +486,10 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -603,6 +617,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(C_p);
 	free(x);
+	free(own_cntx);
 
 
 	return times;
-- 
2.43.0


From 187ce77a564536142e80b5d32d3865245c535ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 12/13] fix: result checkers accept NaN as a correct element

A comparison with NaN is false, so a result full of NaN was reported as
CORRECT.
---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..6f47b7f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -146,7 +146,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(C_check[ind1] != C[ind1] && !(fabs(C_check[ind1] - C[ind1]) <= eps)) {
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -221,7 +221,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(C_check[ind1] != C[ind1] && !(fabs(C_check[ind1] - C[ind1]) <= eps)) {
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0


From cecc61e6b1e567628ff079ffc93c1058f6e51956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 13/13] fix: cake_sgemm_online writes a shared offset from
 every thread

---
 src/cake_sgemm_k_first.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index c259070..8ea8bbf 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -753,6 +753,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 				}
 
 				// pragma omp here (i_c loop)
+				A_offset = m*p*m_c*K + k*k_c;
 				#pragma omp parallel for private(core)
 				for(core = 0; core < p_used; core++) {
 
@@ -768,8 +769,6 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						m_c_x = m_c; 
 					}
 
-					A_offset = m*p*m_c*K + k*k_c;
-
 			            // pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K], A_p[core], 
 			            //    M, K, m*p*m_c, core*m_c_x, m_c_t, k_c_t, m_r, pad);
 					if((k == k_start) && (m == m_start) && (n != 0))  {
-- 
2.43.0

