From 926f69efff67c8603968101d94460d8135c461ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 01/24] hook: LIBRA_SIM seam, prover message functions
 overridable (off by default)

---
 include/infrastructure/sim_seam.h           | 13 +++++
 include/linear_gkr/prover_fast_para_track.h | 25 +++++-----
 include/linear_gkr/prover_fast_track.h      | 25 +++++-----
 include/linear_gkr/zk_prover.h              | 55 +++++++++++----------
 include/traditional_gkr/prover_bc_clogc.h   | 29 +++++------
 include/traditional_gkr/prover_clogc.h      | 25 +++++-----
 6 files changed, 95 insertions(+), 77 deletions(-)
 create mode 100644 include/infrastructure/sim_seam.h

diff --git a/include/infrastructure/sim_seam.h b/include/infrastructure/sim_seam.h
new file mode 100644
index 0000000..259bafa
--- /dev/null
+++ b/include/infrastructure/sim_seam.h
@@ -0,0 +1,13 @@
+#ifndef __sim_seam
+#define __sim_seam
+
+// Simulation seam: with LIBRA_SIM defined, the prover's message functions are
+// virtual, so that a simulator can stand between prover and verifier. Without
+// it (the default) this expands to nothing.
+#ifdef LIBRA_SIM
+#define LIBRA_SIM_SEAM virtual
+#else
+#define LIBRA_SIM_SEAM
+#endif
+
+#endif
diff --git a/include/linear_gkr/prover_fast_para_track.h b/include/linear_gkr/prover_fast_para_track.h
index cfcbc44..2eb8c7f 100644
--- a/include/linear_gkr/prover_fast_para_track.h
+++ b/include/linear_gkr/prover_fast_para_track.h
@@ -4,6 +4,7 @@
 #include "linear_gkr/circuit_fast_track.h"
 #include "linear_gkr/prime_field.h"
 #include "linear_gkr/polynomial.h"
+#include "infrastructure/sim_seam.h"
 #include <cstring>
 #include <utility>
 #include <thread>
@@ -34,19 +35,19 @@ public:
 	prime_field::field_element *beta_g_sum;
 	int *addV_array_counter, *add_mult_sum_counter;
 	double total_time;
-	void init_array(int);
-	void get_circuit(const layered_circuit &from_verifier);
-	prime_field::field_element* evaluate();
-	void proof_init();
-	void sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
+	LIBRA_SIM_SEAM void init_array(int);
+	LIBRA_SIM_SEAM void get_circuit(const layered_circuit &from_verifier);
+	LIBRA_SIM_SEAM prime_field::field_element* evaluate();
+	LIBRA_SIM_SEAM void proof_init();
+	LIBRA_SIM_SEAM void sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
 		const prime_field::field_element &, const prime_field::field_element*, const prime_field::field_element*, prime_field::field_element*, prime_field::field_element*);
-	void sumcheck_phase1_init();
-	void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
-	quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
-	quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
-	prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
-	std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
-	void delete_self();
+	LIBRA_SIM_SEAM void sumcheck_phase1_init();
+	LIBRA_SIM_SEAM void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
+	LIBRA_SIM_SEAM std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
+	LIBRA_SIM_SEAM void delete_self();
 
 	prover()
 	{
diff --git a/include/linear_gkr/prover_fast_track.h b/include/linear_gkr/prover_fast_track.h
index 44e688a..1b1af0a 100644
--- a/include/linear_gkr/prover_fast_track.h
+++ b/include/linear_gkr/prover_fast_track.h
@@ -4,6 +4,7 @@
 #include "linear_gkr/circuit_fast_track.h"
 #include "linear_gkr/prime_field.h"
 #include "linear_gkr/polynomial.h"
+#include "infrastructure/sim_seam.h"
 #include <cstring>
 #include <utility>
 #include <chrono>
@@ -28,20 +29,20 @@ public:
 	prime_field::field_element *beta_g_sum;
 	linear_poly *add_mult_sum;
 	double total_time;
-	void init_array(int);
-	void get_circuit(const layered_circuit &from_verifier);
-	prime_field::field_element* evaluate();
-	void proof_init();
-	void sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
+	LIBRA_SIM_SEAM void init_array(int);
+	LIBRA_SIM_SEAM void get_circuit(const layered_circuit &from_verifier);
+	LIBRA_SIM_SEAM prime_field::field_element* evaluate();
+	LIBRA_SIM_SEAM void proof_init();
+	LIBRA_SIM_SEAM void sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
 		const prime_field::field_element &, const prime_field::field_element*, const prime_field::field_element*, prime_field::field_element*, prime_field::field_element*);
-	void sumcheck_phase1_init();
-	void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
+	LIBRA_SIM_SEAM void sumcheck_phase1_init();
+	LIBRA_SIM_SEAM void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
 	
-	quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
-	quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
-	prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
-	std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
-	void delete_self();
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
+	LIBRA_SIM_SEAM std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
+	LIBRA_SIM_SEAM void delete_self();
 	prover()
 	{
 		memset(circuit_value, 0, sizeof circuit_value);
diff --git a/include/linear_gkr/zk_prover.h b/include/linear_gkr/zk_prover.h
index 3c5b663..536d1d0 100644
--- a/include/linear_gkr/zk_prover.h
+++ b/include/linear_gkr/zk_prover.h
@@ -4,6 +4,7 @@
 #include "linear_gkr/circuit_fast_track.h"
 #include "linear_gkr/prime_field.h"
 #include "linear_gkr/polynomial.h"
+#include "infrastructure/sim_seam.h"
 #include <cstring>
 #include <utility>
 #include <vector>
@@ -37,24 +38,24 @@ public:
 
 
 	double total_time;
-	void init_array(int);
-	void get_circuit(const layered_circuit &from_verifier);
-	prime_field::field_element* evaluate();
-	void proof_init();
+	LIBRA_SIM_SEAM void init_array(int);
+	LIBRA_SIM_SEAM void get_circuit(const layered_circuit &from_verifier);
+	LIBRA_SIM_SEAM prime_field::field_element* evaluate();
+	LIBRA_SIM_SEAM void proof_init();
 	
-	std::vector<bn::Ec1> sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
+	LIBRA_SIM_SEAM std::vector<bn::Ec1> sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
 		const prime_field::field_element &, const prime_field::field_element*, const prime_field::field_element*, prime_field::field_element*, prime_field::field_element*);
-	void sumcheck_phase1_init();
-	void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
-	quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
-	quintuple_poly sumcheck_phase1_updatelastbit(prime_field::field_element, int);
-	quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
-	quintuple_poly sumcheck_phase2_updatelastbit(prime_field::field_element, int);
-
-	quadratic_poly sumcheck_finalround(prime_field::field_element, int, prime_field::field_element);
-	prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
-	std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
-	void delete_self();
+	LIBRA_SIM_SEAM void sumcheck_phase1_init();
+	LIBRA_SIM_SEAM void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quintuple_poly sumcheck_phase1_updatelastbit(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quintuple_poly sumcheck_phase2_updatelastbit(prime_field::field_element, int);
+
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_finalround(prime_field::field_element, int, prime_field::field_element);
+	LIBRA_SIM_SEAM prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
+	LIBRA_SIM_SEAM std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
+	LIBRA_SIM_SEAM void delete_self();
 	zk_prover()
 	{
 		memset(circuit_value, 0, sizeof circuit_value);
@@ -70,25 +71,25 @@ public:
 	prime_field::field_element maskpoly_sumc;
 	prime_field::field_element maskpoly_sumr;
 	prime_field::field_element rho;
-	std::vector<bn::Ec1> generate_maskpoly_pre_rho(int, int);
-	void generate_maskpoly_after_rho(int, int);
-	std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_R(std::vector<mpz_class> R, mpz_class &ans);
-	std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_mask(std::vector<mpz_class> R, mpz_class &ans);
-	std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_input(std::vector<mpz_class> R, mpz_class &ans, mpz_class Z);
-	prime_field::field_element query(prime_field::field_element*, prime_field::field_element*, prime_field::field_element);
-	prime_field::field_element queryRg1(prime_field::field_element);
-	prime_field::field_element queryRg2(prime_field::field_element);
+	LIBRA_SIM_SEAM std::vector<bn::Ec1> generate_maskpoly_pre_rho(int, int);
+	LIBRA_SIM_SEAM void generate_maskpoly_after_rho(int, int);
+	LIBRA_SIM_SEAM std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_R(std::vector<mpz_class> R, mpz_class &ans);
+	LIBRA_SIM_SEAM std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_mask(std::vector<mpz_class> R, mpz_class &ans);
+	LIBRA_SIM_SEAM std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_input(std::vector<mpz_class> R, mpz_class &ans, mpz_class Z);
+	LIBRA_SIM_SEAM prime_field::field_element query(prime_field::field_element*, prime_field::field_element*, prime_field::field_element);
+	LIBRA_SIM_SEAM prime_field::field_element queryRg1(prime_field::field_element);
+	LIBRA_SIM_SEAM prime_field::field_element queryRg2(prime_field::field_element);
 
 	prime_field::field_element maskR[6], preR[6];
 	mpz_class r_f_R, r_f_mask_poly, r_f_input, r_f_input2;
 	prime_field::field_element maskR_sumcu, maskR_sumcv, preZu, preZv, Zu, Zv, preu1, prev1, Iuv, prepreu1, preprev1;
 	quadratic_poly Rg1, Rg2, sumRc;
-	std::vector<bn::Ec1> generate_maskR(int);
+	LIBRA_SIM_SEAM std::vector<bn::Ec1> generate_maskR(int);
 
-	void sumcheck_maskpoly_init();
+	LIBRA_SIM_SEAM void sumcheck_maskpoly_init();
 	std::vector<mpz_class> input_mpz, maskr_mpz;
 	std::vector<prime_field::field_element> maskr;
-	std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > keygen_and_commit(int input_bit_length, double &key_gen_time);
+	LIBRA_SIM_SEAM std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > keygen_and_commit(int input_bit_length, double &key_gen_time);
 
 };
 
diff --git a/include/traditional_gkr/prover_bc_clogc.h b/include/traditional_gkr/prover_bc_clogc.h
index 3f51774..4ad6fff 100644
--- a/include/traditional_gkr/prover_bc_clogc.h
+++ b/include/traditional_gkr/prover_bc_clogc.h
@@ -4,6 +4,7 @@
 #include "traditional_gkr/circuit_bc_clogc.h"
 #include "linear_gkr/prime_field.h"
 #include "linear_gkr/polynomial.h"
+#include "infrastructure/sim_seam.h"
 #include <cstring>
 #include <utility>
 #include <chrono>
@@ -30,22 +31,22 @@ public:
 	prime_field::field_element *V_mult_add_copy;
 	prime_field::field_element beta_blk_val;
 	double total_time;
-	void init_array(int, int blk_bit_length);
-	void get_circuit(const blocked_circuit &from_verifier);
-	prime_field::field_element* evaluate();
-	void proof_init();
-	void sumcheck_init(int layer_id, int bit_length_blk, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
+	LIBRA_SIM_SEAM void init_array(int, int blk_bit_length);
+	LIBRA_SIM_SEAM void get_circuit(const blocked_circuit &from_verifier);
+	LIBRA_SIM_SEAM prime_field::field_element* evaluate();
+	LIBRA_SIM_SEAM void proof_init();
+	LIBRA_SIM_SEAM void sumcheck_init(int layer_id, int bit_length_blk, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
 		const prime_field::field_element &, const prime_field::field_element*, const prime_field::field_element*,
 		const prime_field::field_element*, prime_field::field_element*, prime_field::field_element*, prime_field::field_element*);
-	void sumcheck_phase0_init();
-	void sumcheck_phase1_init(prime_field::field_element);
-	void sumcheck_phase2_init(prime_field::field_element);
-	cubic_poly sumcheck_phase0_update(prime_field::field_element, int);
-	quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
-	quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
-	prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int, int);
-	std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
-	void delete_self();
+	LIBRA_SIM_SEAM void sumcheck_phase0_init();
+	LIBRA_SIM_SEAM void sumcheck_phase1_init(prime_field::field_element);
+	LIBRA_SIM_SEAM void sumcheck_phase2_init(prime_field::field_element);
+	LIBRA_SIM_SEAM cubic_poly sumcheck_phase0_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int, int);
+	LIBRA_SIM_SEAM std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
+	LIBRA_SIM_SEAM void delete_self();
 	prover()
 	{
 	}
diff --git a/include/traditional_gkr/prover_clogc.h b/include/traditional_gkr/prover_clogc.h
index 0995bf3..1c0eb1e 100644
--- a/include/traditional_gkr/prover_clogc.h
+++ b/include/traditional_gkr/prover_clogc.h
@@ -4,6 +4,7 @@
 #include "linear_gkr/circuit_fast_track.h"
 #include "linear_gkr/prime_field.h"
 #include "linear_gkr/polynomial.h"
+#include "infrastructure/sim_seam.h"
 #include <cstring>
 #include <utility>
 #include <chrono>
@@ -27,19 +28,19 @@ public:
 	prime_field::field_element *beta_g_r0_fhalf, *beta_g_r0_shalf, *beta_g_r1_fhalf, *beta_g_r1_shalf, *beta_u_fhalf, *beta_u_shalf;
 	prime_field::field_element *beta_g_sum;
 	double total_time;
-	void init_array(int);
-	void get_circuit(const layered_circuit &from_verifier);
-	prime_field::field_element* evaluate();
-	void proof_init();
-	void sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
+	LIBRA_SIM_SEAM void init_array(int);
+	LIBRA_SIM_SEAM void get_circuit(const layered_circuit &from_verifier);
+	LIBRA_SIM_SEAM prime_field::field_element* evaluate();
+	LIBRA_SIM_SEAM void proof_init();
+	LIBRA_SIM_SEAM void sumcheck_init(int layer_id, int bit_length_g, int bit_length_u, int bit_length_v, const prime_field::field_element &,
 		const prime_field::field_element &, const prime_field::field_element*, const prime_field::field_element*, prime_field::field_element*, prime_field::field_element*);
-	void sumcheck_phase1_init();
-	void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
-	quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
-	quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
-	prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
-	std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
-	void delete_self();
+	LIBRA_SIM_SEAM void sumcheck_phase1_init();
+	LIBRA_SIM_SEAM void sumcheck_phase2_init(prime_field::field_element, const prime_field::field_element*, const prime_field::field_element*);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase1_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM quadratic_poly sumcheck_phase2_update(prime_field::field_element, int);
+	LIBRA_SIM_SEAM prime_field::field_element V_res(const prime_field::field_element*, const prime_field::field_element*, const prime_field::field_element*, int, int);
+	LIBRA_SIM_SEAM std::pair<prime_field::field_element, prime_field::field_element> sumcheck_finalize(prime_field::field_element);
+	LIBRA_SIM_SEAM void delete_self();
 	prover()
 	{
 		memset(circuit_value, 0, sizeof circuit_value);
-- 
2.43.0


From e142846898585bbac25ced29b1f96afcdf573ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:41 +0000
Subject: [PATCH 02/24] fix: refuse malformed circuit files, complete layers to
 a power of two, dummy gates carry no value

The three readers ignored fopen/fscanf failures and reported gates out of
order without stopping, took operands and gate types unchecked (reads and
writes outside the arrays), and layers whose width is not a power of two were
used up to the next power of two without being initialised. A dummy gate with
non-zero fields was given a value by the prover but not by the verifier.
---
 include/linear_gkr/circuit_check.h           |  65 ++++++++++++
 src/linear_gkr/verifier_fast_track.cpp       | 102 ++++---------------
 src/traditional_gkr/verifier_bc_clogc.cpp    |  65 +++---------
 src/traditional_gkr/verifier_traditional.cpp |  62 +++--------
 4 files changed, 112 insertions(+), 182 deletions(-)
 create mode 100644 include/linear_gkr/circuit_check.h

diff --git a/include/linear_gkr/circuit_check.h b/include/linear_gkr/circuit_check.h
new file mode 100644
index 0000000..a513d64
--- /dev/null
+++ b/include/linear_gkr/circuit_check.h
@@ -0,0 +1,65 @@
+#ifndef __circuit_check
+#define __circuit_check
+#include <cstdio>
+#include <cstdlib>
+
+//A circuit file that is not well-formed is refused, it must never be taken for another circuit.
+inline void circuit_error(const char *what, int layer, int gate)
+{
+	fprintf(stderr, "Error, bad circuit file: %s (layer %d, gate %d)\n", what, layer, gate);
+	exit(1);
+}
+
+inline int read_count(FILE *file, int max_value, const char *what, int layer)
+{
+	long long x;
+	if(fscanf(file, "%lld", &x) != 1 || x < 1 || x > max_value)
+		circuit_error(what, layer, -1);
+	return (int)x;
+}
+
+//bit length of a layer with n gates, at least 1
+inline int layer_bit_length(int n)
+{
+	int bit_length = 1;
+	while((1 << bit_length) < n)
+		++bit_length;
+	return bit_length;
+}
+
+//reads gate number j of a layer whose previous layer has prev_size (padded) gates, max_ty is the last supported gate type
+inline void read_gate(FILE *file, int layer, int j, int prev_size, int max_ty, int &ty, int &u, int &v)
+{
+	long long t, g, U, V;
+	if(fscanf(file, "%lld%lld%lld%lld", &t, &g, &U, &V) != 4)
+		circuit_error("cannot read gate", layer, j);
+	if(g != j)
+		circuit_error("gates must be in sorted order, and full [0, 2^n - 1]", layer, j);
+	if(t == 2)
+		U = V = 0; //dummy gate: no input, no value
+	else if(layer == 0)
+	{
+		if(t != 3)
+			circuit_error("input layer has only input and dummy gates", layer, j);
+		V = 0;
+	}
+	else
+	{
+		if(t < 0 || t == 3 || t == 4 || t > max_ty)
+			circuit_error("unknown gate type", layer, j);
+		if(t == 6 && V != 0)
+		{
+			fprintf(stderr, "WARNING, v!=0 for NOT gate.\n");
+			V = 0;
+		}
+		if(t == 10 && V != 0)
+			circuit_error("v!=0 for relay gate", layer, j);
+		if(U < 0 || V < 0)
+			circuit_error("gate input out of range", layer, j);
+		if(t == 5 ? (U > V || V > prev_size) : (U >= prev_size || V >= prev_size))
+			circuit_error("gate input out of range", layer, j);
+	}
+	ty = (int)t, u = (int)U, v = (int)V;
+}
+
+#endif
diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index a61bd56..17654d5 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -3,6 +3,7 @@
 #include <utility>
 #include <iostream>
 #include "linear_gkr/random_generator.h"
+#include "linear_gkr/circuit_check.h"
 
 void verifier::get_prover(prover *pp)
 {
@@ -14,104 +15,39 @@ void verifier::read_circuit(const char *path)
 	int d;
 	FILE *circuit_in;
 	circuit_in = fopen(path, "r");
+	if(circuit_in == NULL)
+		circuit_error("cannot open file", -1, -1);
 
-	fscanf(circuit_in, "%d", &d);
+	d = read_count(circuit_in, 999998, "bad number of layers", -1);
 	int n;
 	C.circuit = new layer[d + 1];
 	C.total_depth = d + 1;
 	int max_bit_length = -1;
 	for(int i = 1; i <= d; ++i)
 	{
-		fscanf(circuit_in, "%d", &n);
-		if(i != 1)
+		n = read_count(circuit_in, 1 << 28, "bad number of gates", i - 1);
+		int bit_length = layer_bit_length(n), size = 1 << bit_length;
+		C.circuit[i].gates = new gate[size];
+		C.circuit[i].bit_length = bit_length;
+		if(i == 1)
 		{
-			if(n == 1)
-				C.circuit[i].gates = new gate[2];
-			else
-				C.circuit[i].gates = new gate[n];
-		}
-		else
-		{
-			if(n == 1)
-			{
-				C.circuit[0].gates = new gate[2];
-				C.circuit[1].gates = new gate[2];
-			}
-			else
-			{
-				C.circuit[0].gates = new gate[n];
-				C.circuit[1].gates = new gate[n];
-			}
+			C.circuit[0].gates = new gate[size];
+			C.circuit[0].bit_length = bit_length;
 		}
-		
-		int max_gate = -1;
-		int previous_g = -1;
-		for(int j = 0; j < n; ++j)
+		for(int j = 0; j < size; ++j)
 		{
-			int ty, g;
-			long long u, v;
-			fscanf(circuit_in, "%d%d%lld%lld", &ty, &g, &u, &v);
-			if(ty == 6)
-			{
-				if(v != 0)
-					fprintf(stderr, "WARNING, v!=0 for NOT gate.\n");
-				v = 0;
-			}
-			if(g != previous_g + 1)
-			{
-				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-			}
-			previous_g = g;
+			//dummy gates complete the layer to a power of two
+			int ty = 2, u = 0, v = 0;
+			if(j < n)
+				read_gate(circuit_in, i - 1, j, 1 << C.circuit[i - 1].bit_length, 10, ty, u, v);
 			if(i != 1)
-				C.circuit[i].gates[g] = gate(ty, u, v);
+				C.circuit[i].gates[j] = gate(ty, u, v);
 			else
 			{
-				assert(ty == 2 || ty == 3);
-				C.circuit[1].gates[g] = gate(4, g, 0);
-				C.circuit[0].gates[g] = gate(ty, u, v);
+				C.circuit[1].gates[j] = gate(4, j, 0);
+				C.circuit[0].gates[j] = gate(ty, u, v);
 			}
 		}
-		max_gate = previous_g;
-		int cnt = 0;
-		while(max_gate)
-		{
-			cnt++;
-			max_gate >>= 1;
-		}
-		max_gate = 1;
-		while(cnt)
-		{
-			max_gate <<= 1;
-			cnt--;
-		}
-		int mx_gate = max_gate;
-		while(mx_gate)
-		{
-			cnt++;
-			mx_gate >>= 1;
-		}
-		if(n == 1)
-		{
-			//add a dummy gate to avoid ill-defined layer.
-			if(i != 1)
-			{
-				C.circuit[i].gates[max_gate] = gate(2, 0, 0);
-				C.circuit[i].bit_length = cnt;
-			}
-			else
-			{
-				C.circuit[0].gates[max_gate] = gate(2, 0, 0);
-				C.circuit[0].bit_length = cnt;
-				C.circuit[1].gates[max_gate] = gate(4, 1, 0);
-				C.circuit[1].bit_length = cnt;
-			}
-		}
-		else
-		{
-			C.circuit[i].bit_length = cnt - 1;
-			if(i == 1)
-				C.circuit[0].bit_length = cnt - 1;
-		}
 		fprintf(stderr, "layer %d, bit_length %d\n", i, C.circuit[i].bit_length);
 		if(C.circuit[i].bit_length > max_bit_length)
 			max_bit_length = C.circuit[i].bit_length;
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f6a7edd..6cd828c 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -3,6 +3,7 @@
 #include <utility>
 #include <iostream>
 #include "linear_gkr/random_generator.h"
+#include "linear_gkr/circuit_check.h"
 
 void verifier::get_prover(prover *pp)
 {
@@ -17,9 +18,10 @@ void verifier::set_blocks(int num_blocks, int binary_bn)
 void verifier::read_circuit(const char* path, int n_copy)
 {
 	int d;
-	static char str[300];
 	FILE *input_file = fopen(path, "r");
-	fscanf(input_file, "%d", &d);
+	if(input_file == NULL)
+		circuit_error("cannot open file", -1, -1);
+	d = read_count(input_file, 999999, "bad number of layers", -1);
 	int n;
 	for(int i = 0; i < n_copy; ++i)
 	{
@@ -29,60 +31,21 @@ void verifier::read_circuit(const char* path, int n_copy)
 	int max_bit_length = -1;
 	for(int i = 0; i < d; ++i)
 	{
-		fscanf(input_file, "%d", &n);
+		n = read_count(input_file, 1 << 28, "bad number of gates", i);
+		int bit_length = layer_bit_length(n), size = 1 << bit_length;
 		for(int blk_id = 0; blk_id < n_copy; ++blk_id)
 		{
-			if(n == 1)
-				C.blocks[blk_id].circuit[i].gates = new gate[2];
-			else
-				C.blocks[blk_id].circuit[i].gates = new gate[n];
-		}
-		int max_gate = -1;
-		int previous_g = -1;
-		for(int j = 0; j < n; ++j)
-		{
-			int ty, g, u, v;
-			fscanf(input_file, "%d%d%d%d", &ty, &g, &u, &v);
-			if(g != previous_g + 1)
-			{
-				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-			}
-			previous_g = g;
-			for(int blk_id = 0; blk_id < n_copy; ++blk_id)
-				C.blocks[blk_id].circuit[i].gates[g] = gate(ty, u, v);
+			C.blocks[blk_id].circuit[i].gates = new gate[size];
+			C.blocks[blk_id].circuit[i].bit_length = bit_length;
 		}
-		max_gate = previous_g;
-		int cnt = 0;
-		while(max_gate)
-		{
-			cnt++;
-			max_gate >>= 1;
-		}
-		max_gate = 1;
-		while(cnt)
-		{
-			max_gate <<= 1;
-			cnt--;
-		}
-		int mx_gate = max_gate;
-		while(mx_gate)
-		{
-			cnt++;
-			mx_gate >>= 1;
-		}
-		if(n == 1)
-		{
-			//add a dummy gate to avoid ill-defined layer.
-			for(int blk_id = 0; blk_id < n_copy; ++blk_id)
-			{
-				C.blocks[blk_id].circuit[i].gates[max_gate] = gate(2, 0, 0);
-				C.blocks[blk_id].circuit[i].bit_length = cnt;
-			}
-		}
-		else
+		for(int j = 0; j < size; ++j)
 		{
+			//dummy gates complete the layer to a power of two
+			int ty = 2, u = 0, v = 0;
+			if(j < n)
+				read_gate(input_file, i, j, i == 0 ? 0 : 1 << C.blocks[0].circuit[i - 1].bit_length, 1, ty, u, v);
 			for(int blk_id = 0; blk_id < n_copy; ++blk_id)
-				C.blocks[blk_id].circuit[i].bit_length = cnt - 1;
+				C.blocks[blk_id].circuit[i].gates[j] = gate(ty, u, v);
 		}
 	//	fprintf(stderr, "layer %d, bit_length %d\n", i, C.blocks[block_id].circuit[i].bit_length);
 		for(int blk_id = 0; blk_id < n_copy; ++blk_id)
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 6776232..d18ba80 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -3,6 +3,7 @@
 #include <utility>
 #include <iostream>
 #include "linear_gkr/random_generator.h"
+#include "linear_gkr/circuit_check.h"
 
 void verifier::get_prover(prover *pp)
 {
@@ -12,61 +13,26 @@ void verifier::get_prover(prover *pp)
 void verifier::read_circuit_from_FILE(FILE* file)
 {
 	int d;
-	static char str[300];
-	int offset;
-	fscanf(file, "%d", &d);
+	if(file == NULL)
+		circuit_error("cannot open file", -1, -1);
+	d = read_count(file, sizeof(p -> circuit_value) / sizeof(p -> circuit_value[0]), "bad number of layers", -1);
 	int n;
 	C.circuit = new layer[d];
 	C.total_depth = d;
 	int max_bit_length = -1;
 	for(int i = 0; i < d; ++i)
 	{
-		fscanf(file, "%d", &n);
-		if(n == 1)
-			C.circuit[i].gates = new gate[2];
-		else
-			C.circuit[i].gates = new gate[n];
-		int max_gate = -1;
-		int previous_g = -1;
-		for(int j = 0; j < n; ++j)
-		{
-			int ty, g, u, v;
-			fscanf(file, "%d%d%d%d", &ty, &g, &u, &v);
-			if(g != previous_g + 1)
-			{
-				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-			}
-			previous_g = g;
-			C.circuit[i].gates[g] = gate(ty, u, v);
-		}
-		max_gate = previous_g;
-		int cnt = 0;
-		while(max_gate)
-		{
-			cnt++;
-			max_gate >>= 1;
-		}
-		max_gate = 1;
-		while(cnt)
-		{
-			max_gate <<= 1;
-			cnt--;
-		}
-		int mx_gate = max_gate;
-		while(mx_gate)
-		{
-			cnt++;
-			mx_gate >>= 1;
-		}
-		if(n == 1)
-		{
-			//add a dummy gate to avoid ill-defined layer.
-			C.circuit[i].gates[max_gate] = gate(2, 0, 0);
-			C.circuit[i].bit_length = cnt;
-		}
-		else
+		n = read_count(file, 1 << 28, "bad number of gates", i);
+		int bit_length = layer_bit_length(n), size = 1 << bit_length;
+		C.circuit[i].gates = new gate[size];
+		C.circuit[i].bit_length = bit_length;
+		for(int j = 0; j < size; ++j)
 		{
-			C.circuit[i].bit_length = cnt - 1;
+			//dummy gates complete the layer to a power of two
+			int ty = 2, u = 0, v = 0;
+			if(j < n)
+				read_gate(file, i, j, i == 0 ? 0 : 1 << C.circuit[i - 1].bit_length, 1, ty, u, v);
+			C.circuit[i].gates[j] = gate(ty, u, v);
 		}
 		//fprintf(stderr, "layer %d, bit_length %d\n", i, C.circuit[i].bit_length);
 		if(C.circuit[i].bit_length > max_bit_length)
-- 
2.43.0


From b45898785d873abaa0df1b054f979aa3756046af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:41 +0000
Subject: [PATCH 03/24] fix: linear verifier keeps its random challenges in the
 input layer's second phase

r_v was overwritten with zeros for layer 1, so a prover knew these challenges
in advance.
---
 src/linear_gkr/verifier_fast_track.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 17654d5..f3e815d 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -434,8 +434,6 @@ bool verifier::verify()
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
 			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
-- 
2.43.0


From 3c7d7c53b5fdf8598175bac02598d2bf098f174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:41 +0000
Subject: [PATCH 04/24] fix: linear verifier holds the prover to its claim on
 V(r_u)

v_u was read from the prover again in every round of phase 2, and the value
used in these rounds did not have to be the one checked against the input.
---
 src/linear_gkr/verifier_fast_track.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index f3e815d..6cf8c61 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -431,12 +431,14 @@ bool verifier::verify()
 		std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		//the prover must not change its claim on V(r_u) afterwards
+		const prime_field::field_element claimed_v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
-			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+			if(poly.eval(0) + poly.eval(1) + direct_relay_value * claimed_v_u != alpha_beta_sum)
 			{
 				fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 				return false;
@@ -444,7 +446,7 @@ bool verifier::verify()
 			else
 			{
 			}
-			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * claimed_v_u;
 		}
 		t1 = std::chrono::high_resolution_clock::now();
 		time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
@@ -453,6 +455,11 @@ bool verifier::verify()
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		if(v_u != claimed_v_u)
+		{
+			fprintf(stderr, "Verification fail, claim on V(r_u) changed, circuit level %d\n", i);
+			return false;
+		}
 
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
 		auto mult_value = mult(i);
-- 
2.43.0


From 53481d04a03ed5583fc79a0a560d0a1404ca6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:41 +0000
Subject: [PATCH 05/24] fix: verifiers check the prover's evaluation of the
 output polynomial

The claim the whole verification starts from was computed by the prover and
never compared with the outputs it had reported.
---
 src/linear_gkr/verifier_fast_track.cpp       | 5 +++++
 src/traditional_gkr/verifier_bc_clogc.cpp    | 6 ++++++
 src/traditional_gkr/verifier_traditional.cpp | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 6cf8c61..e7d79f2 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -385,6 +385,11 @@ bool verifier::verify()
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
 	std::cerr << "	Time: " << ts.count() << std::endl;
+	if(a_0 != V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length))))
+	{
+		fprintf(stderr, "Verification fail, claim on the output.\n");
+		return false;
+	}
 	a_0 = alpha * a_0;
 
 	prime_field::field_element alpha_beta_sum = a_0; //+ a_1
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index 6cd828c..e432048 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -221,7 +221,13 @@ bool verifier::verify()
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
 	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, one_minus_r_b_0, r_b_0, result, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, C.total_blocks_binary_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
+	bool output_claim_right = !(a_0 != V_in(r_b_0, one_minus_r_b_0, r_0, one_minus_r_0, result, C.total_blocks_binary_length, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length))));
 	delete[] result;
+	if(!output_claim_right)
+	{
+		fprintf(stderr, "Verification fail, claim on the output.\n");
+		return false;
+	}
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index d18ba80..2f29b92 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -192,6 +192,11 @@ bool verifier::verify()
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
 	//std::cerr << "	Time: " << ts.count() << std::endl;
+	if(a_0 != V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length))))
+	{
+		fprintf(stderr, "Verification fail, claim on the output.\n");
+		return false;
+	}
 	a_0 = alpha * a_0;
 	prime_field::field_element a_1 = prime_field::field_element(0); //* beta
 
-- 
2.43.0


From 40d970d41f7c1c2a995757cfba30cd65704a80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:41 +0000
Subject: [PATCH 06/24] fix: data-parallel verifier computes the block-index
 factor itself

It took the factor of the end-of-layer check from the prover, who could choose
it to make the check pass.
---
 src/traditional_gkr/verifier_bc_clogc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index e432048..bb5f05a 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -343,7 +343,11 @@ bool verifier::verify()
 //		std::cout << "mult_value = " << mult_value.to_string(10) << std::endl;
 //		std::cout << "add_value = " << add_value.to_string(10) << std::endl;
 
-		if(alpha_beta_sum != p -> beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
+		prime_field::field_element beta_blk_val = prime_field::field_element(1);
+		for(int j = 0; j < C.total_blocks_binary_length; ++j)
+			beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);
+
+		if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From b01e3b5298f79c4a9139c52be2b5307a4041f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:46 +0000
Subject: [PATCH 07/24] fix: data-parallel prover with a single copy stays
 inside its arrays

With log_n_copy = 0 it read block 1 of arrays that have only block 0.
---
 src/traditional_gkr/prover_bc_clogc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index a632193..59716d9 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -349,16 +349,18 @@ void prover::sumcheck_phase1_init(prime_field::field_element previous_random)
 	//CMT protocol uses an O(n log n) one
 	total_uv = (1 << length_u);
 	prime_field::field_element zero = prime_field::field_element(0);
+	//a single copy has no block index to bind
+	int one_blk = block_binary_length == 0 ? 0 : 1;
 	for(int i = 0; i < total_uv; ++i)
 	{
 		prime_field::field_element one_value, zero_value;
-		one_value = block_v_value[1 << length_u | i];
+		one_value = block_v_value[one_blk << length_u | i];
 		zero_value = block_v_value[i];
 
 		V_mult_add[i] = (one_value - zero_value) * previous_random + zero_value;
 		V_mult_add_copy[i] = V_mult_add[i];
 	}
-	beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];
+	beta_blk_val = (block_beta_value[one_blk] - block_beta_value[0]) * previous_random + block_beta_value[0];
 	
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
-- 
2.43.0


From 358fae7cc681781dedc0f07fdefb83d097754cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 08/24] fix: draw challenges from the system's random source
 instead of an unseeded rand()

---
 src/linear_gkr/prime_field.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 23edac2..ef3c604 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -2,6 +2,7 @@
 #include <cmath>
 #include <climits>
 #include <ctime>
+#include <random>
 namespace prime_field
 {
 
@@ -474,9 +475,11 @@ namespace prime_field
 	}
 	void u512b::random()
 	{
-		lo = rand();
-		mid = rand();
-		hi = (u256b)(unsigned long long)rand();
+		//rand() is never seeded, its values are known in advance
+		static std::random_device source;
+		lo = source();
+		mid = source();
+		hi = (u256b)(unsigned long long)source();
 	}
 
 
-- 
2.43.0


From b219870c14b4fc69daf6fb72225596fd00edc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:27 +0000
Subject: [PATCH 09/24] fix: verifiers refuse claimed outputs that are not
 reduced field elements

---
 src/linear_gkr/verifier_fast_track.cpp       |  9 +++++++++
 src/traditional_gkr/verifier_bc_clogc.cpp    | 10 ++++++++++
 src/traditional_gkr/verifier_traditional.cpp |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index e7d79f2..e2a8ad1 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -360,6 +360,15 @@ bool verifier::verify()
 	p -> proof_init();
 
 	auto result = p -> evaluate();
+	//an output is a reduced field element, the arithmetic below ignores what exceeds it
+	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
+	{
+		if(result[i].value >= prime_field::mod_512)
+		{
+			fprintf(stderr, "Verification fail, output %d is not a field element.\n", i);
+			return false;
+		}
+	}
 
 	prime_field::field_element alpha, beta;
 	alpha.value = 1;
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index bb5f05a..5affada 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -189,6 +189,16 @@ bool verifier::verify()
 	p -> proof_init();
 
 	auto result = p -> evaluate();
+	//an output is a reduced field element, the arithmetic below ignores what exceeds it
+	for(int i = 0; i < (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)); ++i)
+	{
+		if(result[i].value >= prime_field::mod_512)
+		{
+			fprintf(stderr, "Verification fail, output %d is not a field element.\n", i);
+			delete[] result;
+			return false;
+		}
+	}
 //	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
 //	{
 //		fprintf(stderr, "%d %s\n", i, result[i].to_string(10).c_str());
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 2f29b92..d10dc14 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -162,6 +162,15 @@ bool verifier::verify()
 	p -> proof_init();
 
 	auto result = p -> evaluate();
+	//an output is a reduced field element, the arithmetic below ignores what exceeds it
+	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
+	{
+		if(result[i].value >= prime_field::mod_512)
+		{
+			fprintf(stderr, "Verification fail, output %d is not a field element.\n", i);
+			return false;
+		}
+	}
 //	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
 //	{
 //		fprintf(stderr, "%d %s\n", i, result[i].to_string(10).c_str());
-- 
2.43.0


From 8123ec8cce6bb91400ab0516b680e3638b555f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:38 +0000
Subject: [PATCH 10/24] fix: parallel prover reduces every term and keeps
 phase-2 differences non-negative

phase2_update subtracted without adding the modulus, so a negative difference
wrapped around 2^512, and both update functions and phase2_init summed more
products than operator % reduces exactly (three): messages were wrong or not
reduced and honest proofs were rejected.
---
 src/linear_gkr/prover_fast_para_track.cpp | 57 +++++++----------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 8ca6cba..01b6f63 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -360,22 +360,12 @@ void phase1_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 
 		}
-		if(i % 4 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		//operator % is exact for a sum of at most three products, so every term is reduced
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 	p -> rets[id].a.value = p -> rets[id].a.value % prime_field::mod;
@@ -529,8 +519,8 @@ void phase2_init_func(prover* p, int id)
 				}
 				if(ty == 0) //add gate
 				{
-					p -> add_mult_sum[v].b.value = (p -> add_mult_sum[v].b.value + p -> beta_g_sum[g].value * p -> beta_u[u].value);
-					p -> addV_array[v].b.value = ((p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod) * p -> v_u.value + p -> addV_array[v].b.value);
+					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value + p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod;
+					p -> addV_array[v].b.value = (p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod) * p -> v_u.value % prime_field::mod + p -> addV_array[v].b.value;
 
 					p -> add_mult_sum_counter[v]++;
 					if(p -> add_mult_sum_counter[v] > 30)
@@ -629,33 +619,22 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 		{
 			
 			p -> nV_mult_add[i].b.value = (p -> V_mult_add[g_zero].a.value * previous_random.value + p -> V_mult_add[g_zero].b.value) % prime_field::mod;
-			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value) % prime_field::mod;
+			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> naddV_array[i].b.value = (p -> addV_array[g_zero].a.value * previous_random.value + p -> addV_array[g_zero].b.value) % prime_field::mod;
-			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value) % prime_field::mod;
+			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> nadd_mult_sum[i].b.value = (p -> add_mult_sum[g_zero].a.value * previous_random.value + p -> add_mult_sum[g_zero].b.value) % prime_field::mod;
-			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value) % prime_field::mod;
+			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
-		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		//operator % is exact for a sum of at most three products, so every term is reduced
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
+								  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 
-- 
2.43.0


From 2eb2ef13290fc4cb1112b170a75141401aa3798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:38 +0000
Subject: [PATCH 11/24] fix: parallel verifier reads circuit files like the
 other readers

It ignored fopen/fscanf failures, reported gates out of order without stopping,
took operands and gate types unchecked, used layers that are no power of two
beyond their end, and stopped at the dummy gate it adds itself to a layer of one
input.
---
 src/linear_gkr/prover_fast_para_track.cpp   |  4 +-
 src/linear_gkr/verifier_fast_para_track.cpp | 72 +++++++--------------
 2 files changed, 24 insertions(+), 52 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 01b6f63..6b0d40e 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -70,8 +70,8 @@ prime_field::field_element* prover::evaluate()
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
-		assert(ty == 3);
-		circuit_value[0][g] = prime_field::field_element(u);
+		assert(ty == 3 || ty == 2);
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index f43624d..bb6e7cf 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -3,6 +3,7 @@
 #include <utility>
 #include <iostream>
 #include "linear_gkr/random_generator.h"
+#include "linear_gkr/circuit_check.h"
 
 void verifier::get_prover(prover *pp)
 {
@@ -12,67 +13,34 @@ void verifier::get_prover(prover *pp)
 void verifier::read_circuit(const char *path)
 {
 	int d;
-	static char str[300];
 	FILE *circuit_in;
 	circuit_in = fopen(path, "r");
+	if(circuit_in == NULL)
+		circuit_error("cannot open file", -1, -1);
 
-	fscanf(circuit_in, "%d", &d);
+	d = read_count(circuit_in, sizeof(p -> circuit_value) / sizeof(p -> circuit_value[0]) - 1, "bad number of layers", -1);
 	int n;
-	C.circuit = new layer[d + 10];
+	C.circuit = new layer[d];
 	C.total_depth = d;
 	max_bit_length = -1;
 	for(int i = 0; i < d; ++i)
 	{
-		fscanf(circuit_in, "%d", &n);
-		if(n == 1)
-			C.circuit[i].gates = new gate[2];
-		else
-			C.circuit[i].gates = new gate[n];
-		int max_gate = -1;
-		int previous_g = -1;
-		for(int j = 0; j < n; ++j)
+		n = read_count(circuit_in, 1 << 28, "bad number of gates", i);
+		int bit_length = layer_bit_length(n), size = 1 << bit_length;
+		C.circuit[i].gates = new gate[size];
+		C.circuit[i].bit_length = bit_length;
+		for(int j = 0; j < size; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(circuit_in, "%d%d%d%d", &ty, &g, &u, &v);
-			if(g != previous_g + 1)
+			//dummy gates complete the layer to a power of two
+			int ty = 2, u = 0, v = 0;
+			if(j < n)
+				read_gate(circuit_in, i, j, i == 0 ? 0 : 1 << C.circuit[i - 1].bit_length, 1, ty, u, v);
+			C.circuit[i].gates[j] = gate(ty, u, v);
+			if(i > 0)
 			{
-				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
+				C.circuit[i].u_gates[u].push_back(std::make_pair(ty, std::make_pair(j, v)));
+				C.circuit[i].v_gates[v].push_back(std::make_pair(ty, std::make_pair(j, u)));
 			}
-			previous_g = g;
-			C.circuit[i].gates[g] = gate(ty, u, v);
-			C.circuit[i].u_gates[u].push_back(std::make_pair(ty, std::make_pair(g, v)));
-			C.circuit[i].v_gates[v].push_back(std::make_pair(ty, std::make_pair(g, u)));
-		}
-		max_gate = previous_g;
-		int cnt = 0;
-		while(max_gate)
-		{
-			cnt++;
-			max_gate >>= 1;
-		}
-		max_gate = 1;
-		while(cnt)
-		{
-			max_gate <<= 1;
-			cnt--;
-		}
-		int mx_gate = max_gate;
-		while(mx_gate)
-		{
-			cnt++;
-			mx_gate >>= 1;
-		}
-		if(n == 1)
-		{
-			//add a dummy gate to avoid ill-defined layer.
-			C.circuit[i].gates[max_gate] = gate(2, 0, 0);
-			C.circuit[i].u_gates[0].push_back(std::make_pair(2, std::make_pair(max_gate, 0)));
-			C.circuit[i].v_gates[0].push_back(std::make_pair(2, std::make_pair(max_gate, 0)));
-			C.circuit[i].bit_length = cnt;
-		}
-		else
-		{
-			C.circuit[i].bit_length = cnt - 1;
 		}
 		fprintf(stderr, "layer %d, bit_length %d\n", i, C.circuit[i].bit_length);
 		if(C.circuit[i].bit_length > max_bit_length)
@@ -355,6 +323,10 @@ bool verifier::verify()
 		{
 			input[g] = prime_field::field_element(C.circuit[0].gates[g].u);
 		}
+		else if(C.circuit[0].gates[g].ty == 2)
+		{
+			input[g] = prime_field::field_element(0);
+		}
 		else
 			assert(false);
 	}
-- 
2.43.0


From 48f12ad395d0dfa45a94f08371c329412dea87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:27 +0000
Subject: [PATCH 12/24] fix: parallel prover waits for beta tables before using
 them

Workers of phase1_init and phase2_init read beta_g_sum and beta_u entries that
other workers may not have computed yet. The work on gates now starts after the
threads that fill the tables are joined.
---
 src/linear_gkr/prover_fast_para_track.cpp | 24 ++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 6b0d40e..19028eb 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -219,6 +219,13 @@ void phase1_init_func(prover* p, int id)
 							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
 	}
 	
+}
+
+//reads beta_g_sum of all threads, runs after every phase1_init_func has finished
+void phase1_gates_func(prover* p, int id)
+{
+	int total_uv = (1 << (p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length));
+	int bs, st, ed;
 	/*
 
 	for(int i = st; i < ed; ++i)
@@ -310,6 +317,10 @@ void prover::sumcheck_phase1_init()
 		threads[i] = std::thread(phase1_init_func, this, i);
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i].join();
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase1_gates_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
 
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 
@@ -423,7 +434,6 @@ void phase2_init_func(prover* p, int id)
 
 	
 	int total_uv = (1 << p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length);
-	int total_g = (1 << p -> C.circuit[p -> sumcheck_layer_id].bit_length);
 	prime_field::field_element zero = prime_field::field_element(0);
 	
 	bs = total_uv / NUM_THREADS;
@@ -445,6 +455,13 @@ void phase2_init_func(prover* p, int id)
 		p -> V_mult_add[i] = p -> circuit_value[p -> sumcheck_layer_id - 1][i];
 	}
 	
+}
+
+//reads beta_u of all threads, runs after every phase2_init_func has finished
+void phase2_gates_func(prover* p, int id)
+{
+	int total_uv = (1 << p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length);
+	int bs, st, ed;
 	/*
 	bs = total_g / 16;
 	if(bs == 0)
@@ -582,6 +599,11 @@ void prover::sumcheck_phase2_init(prime_field::field_element previous_random, co
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase2_init_func, this, i);
 	
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase2_gates_func, this, i);
+	
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i].join();
 	
-- 
2.43.0


From d79fbc6e3a03c827d0c0ec3c6665f9deac23c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:13 +0000
Subject: [PATCH 13/24] fix: parallel verifier checks the claimed outputs
 itself

It took the evaluation of the output polynomial from the prover without
comparing it with the outputs the prover claimed, so any output was accepted,
and it accepted claimed outputs that are not reduced field elements.
---
 src/linear_gkr/verifier_fast_para_track.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index bb6e7cf..d08b093 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -170,6 +170,15 @@ bool verifier::verify()
 	p -> proof_init();
 
 	auto result = p -> evaluate();
+	//an output is a reduced field element, the arithmetic below ignores what exceeds it
+	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
+	{
+		if(result[i].value >= prime_field::mod_512)
+		{
+			fprintf(stderr, "Verification fail, output %d is not a field element.\n", i);
+			return false;
+		}
+	}
 //	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
 //	{
 //		fprintf(stderr, "%d %s\n", i, result[i].to_string(10).c_str());
@@ -200,6 +209,11 @@ bool verifier::verify()
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
 	std::cerr << "	Time: " << ts.count() << std::endl;
 	
+	if(a_0 != V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length))))
+	{
+		fprintf(stderr, "Verification fail, claim on the output.\n");
+		return false;
+	}
 	a_0 = alpha * a_0;
 	prime_field::field_element a_1 = prime_field::field_element(0); //* beta
 
-- 
2.43.0


From 49e20c5835aafb8f5076bfabbb149c6b397da69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 14/24] fix: zero-knowledge verifier reads circuit files like
 the other readers

---
 include/linear_gkr/circuit_check.h |   6 +-
 src/linear_gkr/zk_verifier.cpp     | 177 +++++++++--------------------
 2 files changed, 58 insertions(+), 125 deletions(-)

diff --git a/include/linear_gkr/circuit_check.h b/include/linear_gkr/circuit_check.h
index a513d64..70740f4 100644
--- a/include/linear_gkr/circuit_check.h
+++ b/include/linear_gkr/circuit_check.h
@@ -45,7 +45,7 @@ inline void read_gate(FILE *file, int layer, int j, int prev_size, int max_ty, i
 	}
 	else
 	{
-		if(t < 0 || t == 3 || t == 4 || t > max_ty)
+		if(t < 0 || t == 3 || t == 4 || t == 11 || t > max_ty)
 			circuit_error("unknown gate type", layer, j);
 		if(t == 6 && V != 0)
 		{
@@ -58,6 +58,10 @@ inline void read_gate(FILE *file, int layer, int j, int prev_size, int max_ty, i
 			circuit_error("gate input out of range", layer, j);
 		if(t == 5 ? (U > V || V > prev_size) : (U >= prev_size || V >= prev_size))
 			circuit_error("gate input out of range", layer, j);
+		if(t == 12 && (U > V || V - U + 1 > 63))
+			circuit_error("bad range of exp sum gate", layer, j);
+		if(t == 13 && U != V)
+			circuit_error("u!=v for bit test gate", layer, j);
 	}
 	ty = (int)t, u = (int)U, v = (int)V;
 }
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index af21648..049b84b 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -6,12 +6,41 @@
 #include <gmpxx.h>
 #include <iostream>
 #include "linear_gkr/random_generator.h"
+#include "linear_gkr/circuit_check.h"
 
 void zk_verifier::get_prover(zk_prover *pp)
 {
 	p = pp;
 }
 
+//does layer i consist of repeat_num copies of its first block, copy k reading block k of the previous layer?
+static bool is_repeated(const layered_circuit &C, int i)
+{
+	const layer &cur = C.circuit[i], &prev = C.circuit[i - 1];
+	if(cur.log_block_size < 0 || cur.log_repeat_num < 0 || prev.log_block_size < 0)
+		return false;
+	if((long long)cur.log_block_size + cur.log_repeat_num != cur.bit_length || (long long)prev.log_block_size + cur.log_repeat_num != prev.bit_length)
+		return false;
+	if(cur.block_size != 1 << cur.log_block_size || cur.repeat_num != 1 << cur.log_repeat_num)
+		return false;
+	for(int g = 0; g < (1 << cur.bit_length); ++g)
+	{
+		const gate &x = cur.gates[g], &y = cur.gates[g & (cur.block_size - 1)];
+		int start = (g >> cur.log_block_size) << prev.log_block_size, size = 1 << prev.log_block_size;
+		if(x.ty != y.ty)
+			return false;
+		if(x.ty == 2)
+			continue;
+		if(y.u >= size || x.u != y.u + start)
+			return false;
+		if(x.ty == 6 || x.ty == 10)
+			continue;
+		if(y.v >= size + (x.ty == 5) || x.v != y.v + start)
+			return false;
+	}
+	return true;
+}
+
 void zk_verifier::read_circuit(const char *path, const char *meta_path)
 {
 	int d;
@@ -20,132 +49,39 @@ void zk_verifier::read_circuit(const char *path, const char *meta_path)
 
 	meta_in = fopen(meta_path, "r");
 	circuit_in = fopen(path, "r");
+	if(circuit_in == NULL || meta_in == NULL)
+		circuit_error("cannot open file", -1, -1);
 
-	fscanf(circuit_in, "%d", &d);
+	d = read_count(circuit_in, 999998, "bad number of layers", -1);
 	int n;
 	C.circuit = new layer[d + 1];
 	C.total_depth = d + 1;
 	int max_bit_length = -1;
 	for(int i = 1; i <= d; ++i)
 	{
-		fscanf(circuit_in, "%d", &n);
-		if(i != 1)
-		{
-			if(n == 1)
-				C.circuit[i].gates = new gate[2];
-			else
-				C.circuit[i].gates = new gate[n];
-		}
-		else
-		{
-			if(n == 1)
-			{
-				C.circuit[0].gates = new gate[2];
-				C.circuit[1].gates = new gate[2];
-			}
-			else
-			{
-				C.circuit[0].gates = new gate[n];
-				C.circuit[1].gates = new gate[n];
-			}
-		}
-		
-		int max_gate = -1;
-		int previous_g = -1;
-		for(int j = 0; j < n; ++j)
-		{
-			int ty, g;
-			long long u, v;
-			fscanf(circuit_in, "%d%d%lld%lld", &ty, &g, &u, &v);
-			if(ty != 3)
-			{
-				if(ty == 5)
-				{
-					assert(u >= 0 && u < (1 << C.circuit[i - 1].bit_length));
-					assert(v > u && v <= (1 << C.circuit[i - 1].bit_length));
-				}
-				else
-				{
-					if(!(u >= 0 && u < (1 << C.circuit[i - 1].bit_length)))
-						cout << ty << " " << g << " " << u << " " << v << " " << (1 << C.circuit[i - 1].bit_length) << endl;
-					assert(u >= 0 && u < (1 << C.circuit[i - 1].bit_length));
-					if(!(v >= 0 && v < (1 << C.circuit[i - 1].bit_length)))
-						cout << ty << " " << g << " " << u << " " << v << " " << (1 << C.circuit[i - 1].bit_length) << endl;
-					assert(v >= 0 && v < (1 << C.circuit[i - 1].bit_length));
-				}
-			}
-			if(ty == 6)
-			{
-				if(v != 0)
-					fprintf(stderr, "WARNING, v!=0 for NOT gate.\n");
-				v = 0;
-			}
-			if(ty == 10)
-			{
-				if(v != 0)
-					fprintf(stderr, "WARNING, v!=0 for relay gate. %d\n", i);
-				v = 0;
-			}
-			if(ty == 13)
-			{
-				assert(u == v);
-			}
-			if(g != previous_g + 1)
-			{
-				printf("Error, gates must be in sorted order, and full [0, 2^n - 1]. %d %d %d %d\n", i, j, g, previous_g);
-				exit(0);
-			}
-			previous_g = g;
-			if(i != 1)
-				C.circuit[i].gates[g] = gate(ty, u, v);
-			else
-			{
-				assert(ty == 2 || ty == 3);
-				C.circuit[1].gates[g] = gate(4, g, 0);
-				C.circuit[0].gates[g] = gate(ty, u, v);
-			}
-		}
-		max_gate = previous_g;
-		int cnt = 0;
-		while(max_gate)
-		{
-			cnt++;
-			max_gate >>= 1;
-		}
-		max_gate = 1;
-		while(cnt)
-		{
-			max_gate <<= 1;
-			cnt--;
-		}
-		int mx_gate = max_gate;
-		while(mx_gate)
+		n = read_count(circuit_in, 1 << 28, "bad number of gates", i - 1);
+		int bit_length = layer_bit_length(n), size = 1 << bit_length;
+		C.circuit[i].gates = new gate[size];
+		C.circuit[i].bit_length = bit_length;
+		if(i == 1)
 		{
-			cnt++;
-			mx_gate >>= 1;
+			C.circuit[0].gates = new gate[size];
+			C.circuit[0].bit_length = bit_length;
 		}
-		if(n == 1)
+		for(int j = 0; j < size; ++j)
 		{
-			//add a dummy gate to avoid ill-defined layer.
+			//dummy gates complete the layer to a power of two
+			int ty = 2, u = 0, v = 0;
+			if(j < n)
+				read_gate(circuit_in, i - 1, j, 1 << C.circuit[i - 1].bit_length, 13, ty, u, v);
 			if(i != 1)
-			{
-				C.circuit[i].gates[max_gate] = gate(2, 0, 0);
-				C.circuit[i].bit_length = cnt;
-			}
+				C.circuit[i].gates[j] = gate(ty, u, v);
 			else
 			{
-				C.circuit[0].gates[max_gate] = gate(2, 0, 0);
-				C.circuit[0].bit_length = cnt;
-				C.circuit[1].gates[max_gate] = gate(4, 1, 0);
-				C.circuit[1].bit_length = cnt;
+				C.circuit[1].gates[j] = gate(4, j, 0);
+				C.circuit[0].gates[j] = gate(ty, u, v);
 			}
 		}
-		else
-		{
-			C.circuit[i].bit_length = cnt - 1;
-			if(i == 1)
-				C.circuit[0].bit_length = cnt - 1;
-		}
 		fprintf(stderr, "layer %d, bit_length %d\n", i, C.circuit[i].bit_length);
 		if(C.circuit[i].bit_length > max_bit_length)
 			max_bit_length = C.circuit[i].bit_length;
@@ -154,19 +90,12 @@ void zk_verifier::read_circuit(const char *path, const char *meta_path)
 	for(int i = 1; i <= d; ++i)
 	{
 		int is_para;
-		fscanf(meta_in, "%d", &is_para);
-		fscanf(meta_in, "%d%d%d%d", &C.circuit[i].block_size, &C.circuit[i].repeat_num, &C.circuit[i].log_block_size, &C.circuit[i].log_repeat_num);
-		if(is_para)
-			assert(1 << C.circuit[i].log_repeat_num == C.circuit[i].repeat_num);
-		if(is_para)
-		{
-			C.circuit[i].is_parallel = true;
-		}
-		else
-		{
-			C.circuit[i].is_parallel = false;
-		}
-		
+		if(fscanf(meta_in, "%d%d%d%d%d", &is_para, &C.circuit[i].block_size, &C.circuit[i].repeat_num, &C.circuit[i].log_block_size, &C.circuit[i].log_repeat_num) != 5)
+			circuit_error("bad meta file", i - 1, -1);
+		//the layer above the inputs is only relays
+		C.circuit[i].is_parallel = i != 1 && is_para && is_repeated(C, i);
+		if(i != 1 && is_para && !C.circuit[i].is_parallel)
+			fprintf(stderr, "WARNING, layer %d is not repeated as the meta file says.\n", i);
 	}
 	p -> init_array(max_bit_length);
 
-- 
2.43.0


From 3e29124308834bb6df4e3afc7e6e697a9db495fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 15/24] fix: sum gates that end at the end of a repeated block
 keep their last inputs

---
 src/linear_gkr/zk_verifier.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 049b84b..ea2db87 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -159,7 +159,10 @@ vector<prime_field::field_element> zk_verifier::predicates(int depth, prime_fiel
 			int g = i, u = C.circuit[depth].gates[i].u, v = C.circuit[depth].gates[i].v;
 			g = g & ((1 << C.circuit[depth].log_block_size) - 1);
 			u = u & ((1 << C.circuit[depth - 1].log_block_size) - 1);
-			v = v & ((1 << C.circuit[depth - 1].log_block_size) - 1);
+			if(C.circuit[depth].gates[i].ty == 5 && v > 0) //v is the exclusive end of the sum
+				v = ((v - 1) & ((1 << C.circuit[depth - 1].log_block_size) - 1)) + 1;
+			else
+				v = v & ((1 << C.circuit[depth - 1].log_block_size) - 1);
 			switch(C.circuit[depth].gates[i].ty)
 			{
 				case 0:
-- 
2.43.0


From 4068597494856c58b6f35bde677f322c6ef1b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 16/24] fix: verifiers check every part of a commitment and of
 its opening

---
 include/VPD/input_vpd.h        | 1 +
 src/VPD/inputvpd.cpp           | 5 ++++-
 src/VPD/vpdR.cpp               | 5 ++++-
 src/linear_gkr/zk_verifier.cpp | 7 ++++++-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/VPD/input_vpd.h b/include/VPD/input_vpd.h
index 947dbbf..eba629a 100644
--- a/include/VPD/input_vpd.h
+++ b/include/VPD/input_vpd.h
@@ -26,6 +26,7 @@ namespace input_vpd
     void pre_input(std::vector<mpz_class>& input);
     void prove(vector<mpz_class> r, mpz_class& ans, vector<mpz_class>& input, vector<mpz_class> &input2, vector<Ec1>& witness, vector<Ec1>& witnessa, mpz_class r_f, mpz_class r_f2, mpz_class Z);
     void environment_init();
+    bool check_commit(Ec1 digest, Ec1 digesta, Ec1 digest2, Ec1 digest2a);
     bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class& ans, vector<Ec1>& witness, vector<Ec1>& witnessa);
 }
 
diff --git a/src/VPD/inputvpd.cpp b/src/VPD/inputvpd.cpp
index 46d976e..331c040 100644
--- a/src/VPD/inputvpd.cpp
+++ b/src/VPD/inputvpd.cpp
@@ -383,7 +383,10 @@ bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	if(witness.size() != r.size() + 1 || witnessa.size() != r.size() + 1 || ans < 0 || ans >= p)
+		return false;
+
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/VPD/vpdR.cpp b/src/VPD/vpdR.cpp
index cd85b81..27e179e 100644
--- a/src/VPD/vpdR.cpp
+++ b/src/VPD/vpdR.cpp
@@ -183,7 +183,10 @@ bool verify(vector<mpz_class> r, Ec1 digest, mpz_class ans, vector<Ec1>& witness
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	if(witness.size() != r.size() + 1 || witnessa.size() != r.size() + 1 || ans < 0 || ans >= p)
+		return false;
+
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index ea2db87..20c4031 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -798,6 +798,11 @@ bool zk_verifier::verify(const char* output_path)
 		trans.msg.push_back(container(digest_input.first[i]));
 	for(int i = 0; i < digest_input.second.size(); ++i)
 		trans.msg.push_back(container(digest_input.second[i]));
+	if(digest_input.first.size() != 2 || digest_input.second.size() != 2 || !input_vpd::check_commit(digest_input.first[0], digest_input.first[1], digest_input.second[0], digest_input.second[1]))
+	{
+		fprintf(stderr, "Verification fail, input commitment.\n");
+		return false;
+	}
 	prime_field::field_element alpha, beta;
 	alpha.value = 1;
 	beta.value = 0;
@@ -1073,7 +1078,7 @@ bool zk_verifier::verify(const char* output_path)
 
 
 		std::chrono::high_resolution_clock::time_point vpd_test_verify_0 = std::chrono::high_resolution_clock::now();
-		auto msk_poly_verify = vpd_test::verify(r, digest_mask[0], maskpoly_value_mpz, witnesses.first, witnesses.second);
+		auto msk_poly_verify = witnesses.first.size() == r.size() + 1 && witnesses.second.size() == r.size() + 1 && maskpoly_value_mpz >= 0 && vpd_test::verify(r, digest_mask[0], maskpoly_value_mpz, witnesses.first, witnesses.second);
 		std::chrono::high_resolution_clock::time_point vpd_test_verify_1 = std::chrono::high_resolution_clock::now();
 		std::chrono::duration<double> vpd_test_verify_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_test_verify_1 - vpd_test_verify_0);
 		verification_time += vpd_test_verify_span.count();
-- 
2.43.0


From 748d5cb0b97ef1a2bf6eee623c769b616d646159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 17/24] fix: commitments draw their keys and blinding from the
 system's random source instead of an unseeded rand()

---
 src/VPD/inputvpd.cpp         | 10 +++++++---
 src/VPD/vpdR.cpp             | 10 +++++++---
 src/linear_gkr/zk_prover.cpp | 15 +++++++++++++++
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/VPD/inputvpd.cpp b/src/VPD/inputvpd.cpp
index 331c040..d94b97f 100644
--- a/src/VPD/inputvpd.cpp
+++ b/src/VPD/inputvpd.cpp
@@ -1,4 +1,5 @@
 #include "VPD/input_vpd.h"
+#include <random>
 
 using namespace std;
 using namespace bn;
@@ -8,7 +9,6 @@ namespace input_vpd
 #define P 512
 const int multi_scalar_w = 8;
 
-unsigned long int seed;
 int NumOfVar;
 gmp_randstate_t r_state;  
 mpz_class p, a;
@@ -433,9 +433,13 @@ bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class
 void environment_init()
 {
 	p.set_str("16798108731015832284940804142231733909759579603404752749028378864165570215949",10);
-	seed = rand();
     gmp_randinit_default(r_state);
-    gmp_randseed_ui(r_state, seed);
+	//rand() is never seeded, its values are known in advance
+	static std::random_device source;
+	mpz_class seed = 0;
+	for(int i = 0; i < 8; ++i)
+		seed = (seed << 32) + (unsigned long)source();
+	gmp_randseed(r_state, seed.get_mpz_t());
 	
 	
 	//bilinear g1 g2
diff --git a/src/VPD/vpdR.cpp b/src/VPD/vpdR.cpp
index 27e179e..e792d59 100644
--- a/src/VPD/vpdR.cpp
+++ b/src/VPD/vpdR.cpp
@@ -11,6 +11,7 @@
 
 #include "test_point.hpp"
 #include "bn.h"
+#include <random>
 #include "VPD/vpdR.h"
 
 using namespace std;
@@ -18,7 +19,6 @@ using namespace bn;
 
 #define P 512
 namespace vpdR{
-unsigned long int seed;
 int NumOfVar;
 gmp_randstate_t r_state;  
 mpz_class p, a;
@@ -229,9 +229,13 @@ bool verify(vector<mpz_class> r, Ec1 digest, mpz_class ans, vector<Ec1>& witness
 
 void environment_init()
 {
-	seed = rand();
     gmp_randinit_default(r_state);
-    gmp_randseed_ui(r_state, seed);
+	//rand() is never seeded, its values are known in advance
+	static std::random_device source;
+	mpz_class seed = 0;
+	for(int i = 0; i < 8; ++i)
+		seed = (seed << 32) + (unsigned long)source();
+	gmp_randseed(r_state, seed.get_mpz_t());
 	p.set_str("16798108731015832284940804142231733909759579603404752749028378864165570215949",10);
 	
 	
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 02ab256..9090a2c 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -2,7 +2,21 @@
 #include <iostream>
 #include <utility>
 #include <cstring>
+#include <random>
 #include "bn.h"
+namespace vpd_test
+{
+	extern gmp_randstate_t r_state;
+}
+//vpd_test::environment_init seeds its generator with rand(), which is never seeded: its values are known in advance
+static void reseed_vpd_test()
+{
+	static std::random_device source;
+	mpz_class seed = 0;
+	for(int i = 0; i < 8; ++i)
+		seed = (seed << 32) + (unsigned long)source();
+	gmp_randseed(vpd_test::r_state, seed.get_mpz_t());
+}
 prime_field::field_element from_string(const char* str)
 {
 	prime_field::field_element ret = prime_field::field_element(0);
@@ -164,6 +178,7 @@ vector<bn::Ec1> zk_prover::generate_maskpoly_pre_rho(int length, int degree)
 	}
 	
 	vpd_test::environment_init();
+	reseed_vpd_test();
 	vpd_test::KeyGen(length);
 	vector<bn::Ec1> ret;
 	ret.resize(2);
-- 
2.43.0


From 90beafec018b49d538fab6cf3483cc25a0d9dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:29 +0000
Subject: [PATCH 18/24] fix: a proof that could not be written is not reported
 as a success

---
 include/linear_gkr/transcript.h |  9 ++++++---
 src/linear_gkr/zk_verifier.cpp  | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/linear_gkr/transcript.h b/include/linear_gkr/transcript.h
index 17bf3b5..2d531ec 100644
--- a/include/linear_gkr/transcript.h
+++ b/include/linear_gkr/transcript.h
@@ -62,9 +62,12 @@ public:
         }
         return output;
     }
-    void output_to_file(char* file)
+    //false if the file could not be written completely
+    bool output_to_file(const char* file)
     {
         FILE *f = fopen(file, "wb");
+        if(f == NULL)
+            return false;
         auto vec = output_bit_stream(false);
         int bits = vec.size();
         int bytes;
@@ -80,9 +83,9 @@ public:
         {
             buf[i / 8] |= ((char)vec[i] << (i & 7));
         }
-        fwrite(buf, sizeof(char), bytes, f);
+        bool ok = fwrite(buf, sizeof(char), bytes, f) == (size_t)bytes;
         delete[] buf;
-        fclose(f);
+        return (fclose(f) == 0) && ok;
     }
 
     prime_field::field_element* random(int size)
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 20c4031..7e82295 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -1184,10 +1184,20 @@ bool zk_verifier::verify(const char* output_path)
 		std::cerr << "Proof size(bytes) est " << proof_size << std::endl;
 		std::cerr << "Proof size(bytes) real " << trans.get_proof_size() << std::endl;
 		std::cerr << "Poly commit scheme time " << poly_commit_scheme_time << std::endl;
-		trans.output_to_file("proof.bin");
+		if(!trans.output_to_file("proof.bin"))
+		{
+			fprintf(stderr, "Error, cannot write proof.bin\n");
+			return false;
+		}
 		FILE *result = fopen(output_path, "w");
-		fprintf(result, "%lf %lf %lf %lf %lf %d %lf\n", p -> total_time, verification_time, predicates_calc_time, verification_rdl_time, key_gen_time, proof_size, poly_commit_scheme_time);
-		fclose(result);
+		bool written = result != NULL && fprintf(result, "%lf %lf %lf %lf %lf %d %lf\n", p -> total_time, verification_time, predicates_calc_time, verification_rdl_time, key_gen_time, proof_size, poly_commit_scheme_time) >= 0;
+		if(result != NULL && fclose(result) != 0)
+			written = false;
+		if(!written)
+		{
+			fprintf(stderr, "Error, cannot write %s\n", output_path);
+			return false;
+		}
 	}
 	p -> delete_self();
 	delete_self();
-- 
2.43.0


From a64f13fa2b1579629e96742baf06a4b375252905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:26 +0000
Subject: [PATCH 19/24] fix: zero-knowledge verifier evaluates the claimed
 outputs itself, and challenges depend on them

---
 include/linear_gkr/transcript.h  | 28 ++++++++++++++++++----------
 include/linear_gkr/zk_verifier.h |  1 +
 src/linear_gkr/zk_verifier.cpp   | 17 ++++++++++++++++-
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/include/linear_gkr/transcript.h b/include/linear_gkr/transcript.h
index 2d531ec..1ff7adf 100644
--- a/include/linear_gkr/transcript.h
+++ b/include/linear_gkr/transcript.h
@@ -50,6 +50,14 @@ class proof_transcript
 {
 public:
     std::vector<container> msg;
+    //digest of the first hashed messages
+    __hhash_digest state;
+    size_t hashed;
+    proof_transcript()
+    {
+        memset(&state, 0, sizeof(state));
+        hashed = 0;
+    }
     std::vector<bool> output_bit_stream(bool need_rand)
     {
         std::vector<bool> output;
@@ -90,18 +98,18 @@ public:
 
     prime_field::field_element* random(int size)
     {
-        auto x = output_bit_stream(true);
-        //align with 512
+        std::vector<bool> x;
+        for(; hashed < msg.size(); ++hashed)
+        {
+            auto out = msg[hashed].output();
+            x.insert(x.end(), out.begin(), out.end());
+        }
+        //align with 256
         int data[512 / (8 * sizeof(int))];
-        while(x.size() % 512 != 0)
+        while(x.size() % 256 != 0)
             x.push_back(0);
-        for(int i = 0; i < (512 / (8 * sizeof(int))); ++i)
-            data[i] = 0;
-        for(int i = 0; i < 512; ++i)
-            data[i / 32] |= (((int)x[i]) << (i & (8 * sizeof(int) - 1)));
-        __hhash_digest h;
-        my_hhash(data, &h);
-        int cur = 512;
+        __hhash_digest &h = state;
+        size_t cur = 0;
         while(cur < x.size())
         {
             for(int i = 0; i < (512 / (8 * sizeof(int))); ++i)
diff --git a/include/linear_gkr/zk_verifier.h b/include/linear_gkr/zk_verifier.h
index bcaa593..86b98eb 100644
--- a/include/linear_gkr/zk_verifier.h
+++ b/include/linear_gkr/zk_verifier.h
@@ -37,6 +37,7 @@ public:
 	void get_prover(zk_prover*);
 	void delete_self();
 	prime_field::field_element* generate_randomness(unsigned int size);
+	bool receive(const prime_field::field_element &x);
 	vector<prime_field::field_element> predicates(int depth, prime_field::field_element *r_0, prime_field::field_element *r_1, prime_field::field_element *r_u, prime_field::field_element *r_v, prime_field::field_element alpha, prime_field::field_element beta);
 	prime_field::field_element direct_relay(int depth, prime_field::field_element *r_g, prime_field::field_element *r_u);
 	prime_field::field_element V_in(const prime_field::field_element*, const prime_field::field_element*, prime_field::field_element*, int, int);
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 7e82295..f2d47c4 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -755,6 +755,18 @@ prime_field::field_element* zk_verifier::generate_randomness(unsigned int size)
 	return ret;
 }
 
+//a message of the prover: it must be a reduced field element, and every later challenge depends on it
+bool zk_verifier::receive(const prime_field::field_element &x)
+{
+	if(x.value >= prime_field::mod_512)
+	{
+		fprintf(stderr, "Verification fail, not a field element.\n");
+		return false;
+	}
+	trans.msg.push_back(container(x, container::fld_ele_indicator));
+	return true;
+}
+
 prime_field::field_element zk_verifier::V_in(const prime_field::field_element* r_0, const prime_field::field_element* one_minus_r_0,
 								prime_field::field_element* output_raw, int r_0_size, int output_size)
 {
@@ -803,6 +815,9 @@ bool zk_verifier::verify(const char* output_path)
 		fprintf(stderr, "Verification fail, input commitment.\n");
 		return false;
 	}
+	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
+		if(!receive(result[i]))
+			return false;
 	prime_field::field_element alpha, beta;
 	alpha.value = 1;
 	beta.value = 0;
@@ -821,7 +836,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
-- 
2.43.0


From ed7e1fc08ae24addc8fe68e1c9e63c4c4e19ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:19 +0000
Subject: [PATCH 20/24] fix: zero-knowledge verifier draws each challenge after
 the message it tests, and every message counts

---
 include/linear_gkr/zk_prover.h |  1 +
 src/linear_gkr/zk_prover.cpp   |  9 +++-
 src/linear_gkr/zk_verifier.cpp | 88 +++++++++++++++++-----------------
 3 files changed, 54 insertions(+), 44 deletions(-)

diff --git a/include/linear_gkr/zk_prover.h b/include/linear_gkr/zk_prover.h
index 536d1d0..e9f8044 100644
--- a/include/linear_gkr/zk_prover.h
+++ b/include/linear_gkr/zk_prover.h
@@ -73,6 +73,7 @@ public:
 	prime_field::field_element rho;
 	LIBRA_SIM_SEAM std::vector<bn::Ec1> generate_maskpoly_pre_rho(int, int);
 	LIBRA_SIM_SEAM void generate_maskpoly_after_rho(int, int);
+	void sum_maskpoly(int, int);
 	LIBRA_SIM_SEAM std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_R(std::vector<mpz_class> R, mpz_class &ans);
 	LIBRA_SIM_SEAM std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_mask(std::vector<mpz_class> R, mpz_class &ans);
 	LIBRA_SIM_SEAM std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > prove_input(std::vector<mpz_class> R, mpz_class &ans, mpz_class Z);
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 9090a2c..b44cfaa 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -188,6 +188,7 @@ vector<bn::Ec1> zk_prover::generate_maskpoly_pre_rho(int length, int degree)
 		maskpoly_gmp[i] = maskpoly[i].to_gmp_class();
 
 	r_f_mask_poly = vpd_test::commit(ret[0], ret[1], maskpoly_gmp);
+	sum_maskpoly(length, degree);
 	return ret;
 }
 
@@ -251,6 +252,13 @@ void zk_prover::generate_maskpoly_after_rho(int length, int degree)
 	for(int i = 0; i < length * degree + 1 + 6; i++){
 		maskpoly[i] = maskpoly[i] * rho;
 	}
+	sum_maskpoly(length, degree);
+	maskpoly_sumr = prime_field::field_element(0);
+}
+
+//sum of the mask polynomial over all 0/1 points
+void zk_prover::sum_maskpoly(int length, int degree)
+{
 	maskpoly_sumc = maskpoly[length * degree];
 	for(int i = length * degree; i >= 0; i--)
 		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
@@ -259,7 +267,6 @@ void zk_prover::generate_maskpoly_after_rho(int length, int degree)
 
 	for(int i = 1; i < length; i++)
 		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
-	maskpoly_sumr = prime_field::field_element(0);
 }
 
 //new zk function
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index f2d47c4..f1578f1 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -850,7 +850,6 @@ bool zk_verifier::verify(const char* output_path)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
 	//	std::cerr << "Bound u start" << std::endl;
-		auto rho = trans.random();
 		std::vector<bn::Ec1> digest_mask;
 
 		auto digest_maskR = p -> sumcheck_init(i, C.circuit[i].bit_length, C.circuit[i - 1].bit_length, C.circuit[i - 1].bit_length, alpha, beta, r_0, r_1, one_minus_r_0, one_minus_r_1);
@@ -861,6 +860,10 @@ bool zk_verifier::verify(const char* output_path)
 			trans.msg.push_back(digest_mask[j]);
 		for(int j = 0; j < digest_maskR.size(); ++j)
 			trans.msg.push_back(digest_maskR[j]);
+		auto mask_sum = p -> maskpoly_sumc;
+		if(!receive(mask_sum))
+			return false;
+		auto rho = trans.random();
 		p -> rho = rho;
 		p -> generate_maskpoly_after_rho(C.circuit[i - 1].bit_length * 2 + 1, 2);
 		bool r_verify_cc = vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
@@ -868,36 +871,28 @@ bool zk_verifier::verify(const char* output_path)
 		
 		//add maskpoly
 
-		alpha_beta_sum.value = (alpha_beta_sum.value + p->maskpoly_sumc.value) % prime_field::mod;
+		alpha_beta_sum = alpha_beta_sum + rho * mask_sum;
 
 		p -> sumcheck_phase1_init();
 		prime_field::field_element previous_random = prime_field::field_element(0);
 		//next level random
-		auto r_u = generate_randomness(C.circuit[i - 1].bit_length);
-		auto r_v = generate_randomness(C.circuit[i - 1].bit_length);
-		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
-		auto r_c = generate_randomness(1);
+		//each of them is drawn when the message it is to test has been received
+		prime_field::field_element *r_u, *r_v;
+		r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
+		r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		prime_field::field_element *one_minus_r_u, *one_minus_r_v;
 		one_minus_r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		one_minus_r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
-		
-		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
-		{
-			one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
-			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
-		}
 
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{	
 			if(j == C.circuit[i - 1].bit_length - 1){
 				quintuple_poly poly = p->sumcheck_phase1_updatelastbit(previous_random, j);
 				proof_size += sizeof(quintuple_poly) / 2;
-				trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
+				if(!receive(poly.a) || !receive(poly.b) || !receive(poly.c) || !receive(poly.d) || !receive(poly.e) || !receive(poly.f))
+					return false;
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 
 
@@ -917,9 +912,10 @@ bool zk_verifier::verify(const char* output_path)
 			else{
 				quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);
 				proof_size += sizeof(quadratic_poly) / 2;
-				trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+				if(!receive(poly.a) || !receive(poly.b) || !receive(poly.c))
+					return false;
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 			
 
@@ -941,24 +937,24 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
 	//	std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
+		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		auto v_u = p -> v_u;
+		if(!receive(v_u))
+			return false;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			if(j == C.circuit[i - 1].bit_length - 1){
 				quintuple_poly poly = p -> sumcheck_phase2_updatelastbit(previous_random, j);
 				proof_size += sizeof(quintuple_poly) / 2;
-				trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
+				if(!receive(poly.a) || !receive(poly.b) || !receive(poly.c) || !receive(poly.d) || !receive(poly.e) || !receive(poly.f))
+					return false;
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				poly.f = poly.f;
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -967,19 +963,20 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 			else
 			{
 				quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 				proof_size += sizeof(quadratic_poly) / 2;
-				trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
-				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+				if(!receive(poly.a) || !receive(poly.b) || !receive(poly.c))
+					return false;
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				poly.c = poly.c;
 			
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -988,7 +985,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 		}
 
@@ -999,8 +996,12 @@ bool zk_verifier::verify(const char* output_path)
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		
 
-		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		if(final_claims.first != v_u || !receive(v_v))
+		{
+			fprintf(stderr, "Verification fail, claims, circuit level %d\n", i);
+			return false;
+		}
 
 		std::chrono::high_resolution_clock::time_point predicates_calc_t0 = std::chrono::high_resolution_clock::now();
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
@@ -1029,15 +1030,16 @@ bool zk_verifier::verify(const char* output_path)
 			fprintf(stderr, "Verification fail, phase2, lastbit for c\n");
 			return false;
 		}
-		if(i == 1)
-			r_c[0] = prime_field::field_element(0);
-		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * p -> v_u;
+		if(!receive(poly.a) || !receive(poly.b) || !receive(poly.c))
+			return false;
+		auto r_c = trans.random();
+		alpha_beta_sum = poly.eval(r_c) + direct_relay_value * v_u;
 
 		auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
 		std::vector<mpz_class> r;
 		r.resize(2);
-		r[0] = p -> prepreu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
+		r[0] = p -> prepreu1.to_gmp_class(), r[1] = r_c.to_gmp_class();
 		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
 		prime_field::field_element tmp_rg1;
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
@@ -1081,7 +1083,7 @@ bool zk_verifier::verify(const char* output_path)
 			r.push_back(r_u[j].to_gmp_class());
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 			r.push_back(r_v[j].to_gmp_class());
-		r.push_back(r_c[0].to_gmp_class());
+		r.push_back(r_c.to_gmp_class());
 		mpz_class maskpoly_value_mpz = 0;
 		witnesses = p -> prove_mask(r, maskpoly_value_mpz);
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
@@ -1113,7 +1115,7 @@ bool zk_verifier::verify(const char* output_path)
 		maskpoly_value.value = prime_field::u512b(maskpoly_value_mpz.get_str().c_str(), maskpoly_value_mpz.get_str().length(), 10);
 		maskRg1_value.value = prime_field::u512b(maskRg1_value_mpz.get_str().c_str(), maskRg1_value_mpz.get_str().length(), 10);
 		maskRg2_value.value = prime_field::u512b(maskRg2_value_mpz.get_str().c_str(), maskRg2_value_mpz.get_str().length(), 10);
-		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
+		if(alpha_beta_sum != r_c * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From 15cc77b2fa522637da48033c2a2a0cafef88a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:19 +0000
Subject: [PATCH 21/24] fix: zero-knowledge verifier computes the factors of
 the masks itself

---
 src/linear_gkr/zk_verifier.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index f1578f1..a6dbbe9 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -787,6 +787,15 @@ prime_field::field_element zk_verifier::V_in(const prime_field::field_element* r
 	return ret;
 }
 
+//product of r(1-r): the factor that makes a mask vanish on all 0/1 points
+static prime_field::field_element vanish(const prime_field::field_element *r, int length)
+{
+	prime_field::field_element ret = prime_field::field_element(1);
+	for(int i = 0; i < length; ++i)
+		ret = ret * r[i] * (prime_field::field_element(1) - r[i]);
+	return ret;
+}
+
 bool zk_verifier::verify(const char* output_path)
 {
 	int proof_size = 0;
@@ -1039,7 +1048,7 @@ bool zk_verifier::verify(const char* output_path)
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
 		std::vector<mpz_class> r;
 		r.resize(2);
-		r[0] = p -> prepreu1.to_gmp_class(), r[1] = r_c.to_gmp_class();
+		r[0] = r_0[C.circuit[i].bit_length - 1].to_gmp_class(), r[1] = r_c.to_gmp_class();
 		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
 		prime_field::field_element tmp_rg1;
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
@@ -1054,7 +1063,7 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
 		verification_time += vpdr_verify_0_span.count();
 
-		r[0] = p -> preprev1.to_gmp_class();
+		r[0] = r_1[C.circuit[i].bit_length - 1].to_gmp_class();
 		witnesses = p -> prove_R(r, maskRg2_value_mpz);
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
 		for(int i = 0; i < witnesses.first.size(); ++i)
@@ -1109,13 +1118,19 @@ bool zk_verifier::verify(const char* output_path)
 			return false;
 		}
 		
+		//factors of the masks: the claim on the output layer is not masked
+		prime_field::field_element Iuv = prime_field::field_element(1), Zu = vanish(r_0, C.circuit[i].bit_length), Zv = vanish(r_1, C.circuit[i].bit_length);
+		if(i == C.total_depth - 1)
+			Zu = Zv = prime_field::field_element(0);
+		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
+			Iuv = Iuv * one_minus_r_u[j] * one_minus_r_v[j];
 		prime_field::field_element maskpoly_value;
 		prime_field::field_element maskRg1_value;
 		prime_field::field_element maskRg2_value;
 		maskpoly_value.value = prime_field::u512b(maskpoly_value_mpz.get_str().c_str(), maskpoly_value_mpz.get_str().length(), 10);
 		maskRg1_value.value = prime_field::u512b(maskRg1_value_mpz.get_str().c_str(), maskRg1_value_mpz.get_str().length(), 10);
 		maskRg2_value.value = prime_field::u512b(maskRg2_value_mpz.get_str().c_str(), maskRg2_value_mpz.get_str().length(), 10);
-		if(alpha_beta_sum != r_c * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
+		if(alpha_beta_sum != r_c * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * Iuv * Zu * maskRg1_value + beta * Iuv * Zv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
@@ -1156,7 +1171,8 @@ bool zk_verifier::verify(const char* output_path)
 	auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 
 	input_0_mpz = 0, input_1_mpz = 0;
-	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, p -> Zu.to_gmp_class());
+	auto Z_input = vanish(r_0, C.circuit[0].bit_length);
+	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, Z_input.to_gmp_class());
 	proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses_0.first.size() + witnesses_0.second.size());
 	for(int i = 0; i < witnesses_0.first.size(); ++i)
 		trans.msg.push_back(container(witnesses_0.first[i]));
@@ -1165,7 +1181,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 
 	std::chrono::high_resolution_clock::time_point vpd_input_0 = std::chrono::high_resolution_clock::now();
-	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], p -> Zu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
+	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], Z_input.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
 	std::chrono::high_resolution_clock::time_point vpd_input_1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> vpd_input_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_input_1 - vpd_input_0);
 	verification_time += vpd_input_span.count();
@@ -1177,8 +1193,6 @@ bool zk_verifier::verify(const char* output_path)
 		return false;
 	}
 
-	input_0 = input_0 + p->Zu * p->sumRc.eval(p->preu1);
-	
 	auto is0 = input_0_mpz.get_str();
 	input_0.value = prime_field::u512b(is0.c_str(), is0.length(), 10);
 	
-- 
2.43.0


From c5dc391de3cdf156225b3a567ee20669c0cd1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:58 +0000
Subject: [PATCH 22/24] fix: zero-knowledge prover commits to the mask of its
 claims before their points are drawn

---
 include/linear_gkr/zk_prover.h |  2 +-
 src/linear_gkr/zk_prover.cpp   | 18 +++++++++---------
 src/linear_gkr/zk_verifier.cpp | 29 ++++++++++++++++++++++-------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/include/linear_gkr/zk_prover.h b/include/linear_gkr/zk_prover.h
index e9f8044..649606c 100644
--- a/include/linear_gkr/zk_prover.h
+++ b/include/linear_gkr/zk_prover.h
@@ -82,7 +82,7 @@ public:
 	LIBRA_SIM_SEAM prime_field::field_element queryRg2(prime_field::field_element);
 
 	prime_field::field_element maskR[6], preR[6];
-	mpz_class r_f_R, r_f_mask_poly, r_f_input, r_f_input2;
+	mpz_class r_f_R, r_f_preR, r_f_mask_poly, r_f_input, r_f_input2;
 	prime_field::field_element maskR_sumcu, maskR_sumcv, preZu, preZv, Zu, Zv, preu1, prev1, Iuv, prepreu1, preprev1;
 	quadratic_poly Rg1, Rg2, sumRc;
 	LIBRA_SIM_SEAM std::vector<bn::Ec1> generate_maskR(int);
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index b44cfaa..6b77732 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -272,16 +272,10 @@ void zk_prover::sum_maskpoly(int length, int degree)
 //new zk function
 //a0 + a1g1 + a2g1^2 + a3c + a4c^2 + a5g1c + a6g1^2c + a7g1c^2 + a8g1^2c^2;
 std::vector<bn::Ec1> zk_prover::generate_maskR(int layer_id){
-	vpdR::KeyGen(2);
 	std::vector<bn::Ec1> ret;
-	ret.resize(2);
-
-	std::vector<mpz_class> maskR_gmp;
-	for(int i = 0; i < 6; ++i)
-		maskR_gmp.push_back(maskR[i].to_gmp_class());
 	prepreu1 = preu1;
 	preprev1 = prev1;
-	r_f_R = vpdR::commit(ret[0], ret[1], maskR_gmp);
+	r_f_preR = r_f_R;
 
 	for(int i = 0; i < 6; i++)
 		preR[i] = maskR[i];
@@ -311,6 +305,12 @@ std::vector<bn::Ec1> zk_prover::generate_maskR(int layer_id){
 		sumRc.a = maskR[2] + maskR[2];
 		sumRc.b = maskR[1] + maskR[1] + maskR[5];
 		sumRc.c = maskR[0] + maskR[0] + maskR[3] + maskR[4];
+		//commit to the mask of the next claims before their points are known
+		std::vector<mpz_class> maskR_gmp;
+		for(int i = 0; i < 6; ++i)
+			maskR_gmp.push_back(maskR[i].to_gmp_class());
+		ret.resize(2);
+		r_f_R = vpdR::commit(ret[0], ret[1], maskR_gmp);
 	} 
 	if(layer_id == 1){
 		//a + bx;
@@ -330,7 +330,7 @@ std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > zk_prover::prove_R(std::v
 	std::vector<mpz_class> input;
 	for(int i = 0; i < 6; ++i)
 		input.push_back(preR[i].to_gmp_class());
-	vpdR::prove(R, ans, input, witness, witnessa, r_f_R);
+	vpdR::prove(R, ans, input, witness, witnessa, r_f_preR);
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
@@ -1262,5 +1262,5 @@ std::pair<prime_field::field_element, prime_field::field_element> zk_prover::sum
 }
 void zk_prover::proof_init()
 {
-	//todo
+	vpdR::KeyGen(2);
 }
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index a6dbbe9..3da3df9 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -855,6 +855,8 @@ bool zk_verifier::verify(const char* output_path)
 	prime_field::field_element alpha_beta_sum = a_0; //+ a_1
 
 	prime_field::field_element direct_relay_value;
+	//mask of the claims on the current layer, committed before the points of these claims were drawn
+	std::vector<bn::Ec1> digest_preR;
 	for(int i = C.total_depth - 1; i >= 1; --i)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
@@ -875,8 +877,14 @@ bool zk_verifier::verify(const char* output_path)
 		auto rho = trans.random();
 		p -> rho = rho;
 		p -> generate_maskpoly_after_rho(C.circuit[i - 1].bit_length * 2 + 1, 2);
-		bool r_verify_cc = vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
-		bool msk_poly_cc = vpd_test::check_commit(digest_mask[0], digest_mask[1]);
+		//the masks of the inputs are part of the input commitment
+		bool r_verify_cc = i == 1 || (digest_maskR.size() == 2 && vpdR::check_commit(digest_maskR[0], digest_maskR[1]));
+		bool msk_poly_cc = digest_mask.size() == 2 && vpd_test::check_commit(digest_mask[0], digest_mask[1]);
+		if(!r_verify_cc || !msk_poly_cc)
+		{
+			fprintf(stderr, "Verification fail, mask commitment, circuit level %d\n", i);
+			return false;
+		}
 		
 		//add maskpoly
 
@@ -1049,7 +1057,12 @@ bool zk_verifier::verify(const char* output_path)
 		std::vector<mpz_class> r;
 		r.resize(2);
 		r[0] = r_0[C.circuit[i].bit_length - 1].to_gmp_class(), r[1] = r_c.to_gmp_class();
-		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
+		std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > witnesses;
+		bool r_verify_verify = true;
+		//the claim on the output layer has no mask
+		if(i != C.total_depth - 1)
+		{
+		witnesses = p -> prove_R(r, maskRg1_value_mpz);
 		prime_field::field_element tmp_rg1;
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
 		for(int i = 0; i < witnesses.first.size(); ++i)
@@ -1058,7 +1071,7 @@ bool zk_verifier::verify(const char* output_path)
 			trans.msg.push_back(container(witnesses.second[i]));
 
 		std::chrono::high_resolution_clock::time_point vpdr_verify_0_0 = std::chrono::high_resolution_clock::now();
-		bool r_verify_verify = vpdR::verify(r, digest_maskR[0], maskRg1_value_mpz, witnesses.first, witnesses.second);
+		r_verify_verify &= vpdR::verify(r, digest_preR[0], maskRg1_value_mpz, witnesses.first, witnesses.second);
 		std::chrono::high_resolution_clock::time_point vpdr_verify_0_1 = std::chrono::high_resolution_clock::now();
 		std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
 		verification_time += vpdr_verify_0_span.count();
@@ -1072,13 +1085,15 @@ bool zk_verifier::verify(const char* output_path)
 			trans.msg.push_back(container(witnesses.second[i]));
 		
 		std::chrono::high_resolution_clock::time_point vpdr_verify_1_0 = std::chrono::high_resolution_clock::now();
-		r_verify_verify &= vpdR::verify(r, digest_maskR[0], maskRg2_value_mpz, witnesses.first, witnesses.second);
+		r_verify_verify &= vpdR::verify(r, digest_preR[0], maskRg2_value_mpz, witnesses.first, witnesses.second);
 		std::chrono::high_resolution_clock::time_point vpdr_verify_1_1 = std::chrono::high_resolution_clock::now();
 		std::chrono::duration<double> vpdr_verify_1_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_1_1 - vpdr_verify_1_0);
 		verification_time += vpdr_verify_1_span.count();
+		}
+		digest_preR = digest_maskR;
 		auto poly_commit_prove_time_t1 = std::chrono::high_resolution_clock::now();
 		poly_commit_scheme_time += std::chrono::duration_cast<std::chrono::duration<double>>(poly_commit_prove_time_t1 - poly_commit_prove_time_t0).count();
-		if(r_verify_verify & r_verify_cc)
+		if(r_verify_verify)
 		{
 		}
 		else
@@ -1109,7 +1124,7 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> vpd_test_verify_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_test_verify_1 - vpd_test_verify_0);
 		verification_time += vpd_test_verify_span.count();
 
-		if(msk_poly_cc & msk_poly_verify)
+		if(msk_poly_verify)
 		{
 		}
 		else
-- 
2.43.0


From 629a68a328b842c08d53895333bc68d39120d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 23/24] fix: the proof file contains the values opened of the
 masks and of the inputs

---
 src/linear_gkr/zk_verifier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 3da3df9..647cbd9 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -1145,6 +1145,9 @@ bool zk_verifier::verify(const char* output_path)
 		maskpoly_value.value = prime_field::u512b(maskpoly_value_mpz.get_str().c_str(), maskpoly_value_mpz.get_str().length(), 10);
 		maskRg1_value.value = prime_field::u512b(maskRg1_value_mpz.get_str().c_str(), maskRg1_value_mpz.get_str().length(), 10);
 		maskRg2_value.value = prime_field::u512b(maskRg2_value_mpz.get_str().c_str(), maskRg2_value_mpz.get_str().length(), 10);
+		//the opened values belong to the proof
+		if(!receive(maskpoly_value) || (i != C.total_depth - 1 && !(receive(maskRg1_value) && receive(maskRg2_value))))
+			return false;
 		if(alpha_beta_sum != r_c * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * Iuv * Zu * maskRg1_value + beta * Iuv * Zv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
@@ -1210,6 +1213,8 @@ bool zk_verifier::verify(const char* output_path)
 
 	auto is0 = input_0_mpz.get_str();
 	input_0.value = prime_field::u512b(is0.c_str(), is0.length(), 10);
+	if(!receive(input_0))
+		return false;
 	
 	delete[] r_0;
 	delete[] r_1;
-- 
2.43.0


From eafb571d890f219138dce222f7e1c60d7e1732ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 24/24] fix: circuits read from a string are read like circuit
 files

---
 include/linear_gkr/verifier_fast_track.h |  1 +
 src/linear_gkr/verifier_fast_track.cpp   | 84 ++++--------------------
 2 files changed, 14 insertions(+), 71 deletions(-)

diff --git a/include/linear_gkr/verifier_fast_track.h b/include/linear_gkr/verifier_fast_track.h
index 98fd1f9..261d5ae 100644
--- a/include/linear_gkr/verifier_fast_track.h
+++ b/include/linear_gkr/verifier_fast_track.h
@@ -33,6 +33,7 @@ public:
 	prime_field::field_element sum_gate(int depth);
 	prime_field::field_element relay_gate(int depth);
 	void read_circuit_from_string(char*);
+	void read_circuit_from_FILE(FILE*);
 };
 
 #endif
diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index e2a8ad1..9849e93 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -1,5 +1,6 @@
 #include "linear_gkr/verifier_fast_track.h"
 #include <string>
+#include <cstring>
 #include <utility>
 #include <iostream>
 #include "linear_gkr/random_generator.h"
@@ -12,12 +13,17 @@ void verifier::get_prover(prover *pp)
 
 void verifier::read_circuit(const char *path)
 {
-	int d;
 	FILE *circuit_in;
 	circuit_in = fopen(path, "r");
 	if(circuit_in == NULL)
 		circuit_error("cannot open file", -1, -1);
+	read_circuit_from_FILE(circuit_in);
+	fclose(circuit_in);
+}
 
+void verifier::read_circuit_from_FILE(FILE *circuit_in)
+{
+	int d;
 	d = read_count(circuit_in, 999998, "bad number of layers", -1);
 	int n;
 	C.circuit = new layer[d + 1];
@@ -58,80 +64,16 @@ void verifier::read_circuit(const char *path)
 	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];
 	beta_v = new prime_field::field_element[(1 << max_bit_length)];
 	beta_u = new prime_field::field_element[(1 << max_bit_length)];
-	fclose(circuit_in);
 }
 
 void verifier::read_circuit_from_string(char* file)
 {
-	int d;
-	int offset;
-	sscanf(file, "%d%n", &d, &offset);
-	file += offset;
-	int n;
-	C.circuit = new layer[d];
-	C.total_depth = d;
-	int max_bit_length = -1;
-	for(int i = 0; i < d; ++i)
-	{
-		sscanf(file, "%d%n", &n, &offset);
-		file += offset;
-		if(n == 1)
-			C.circuit[i].gates = new gate[2];
-		else
-			C.circuit[i].gates = new gate[n];
-		int max_gate = -1;
-		int previous_g = -1;
-		for(int j = 0; j < n; ++j)
-		{
-			int ty, g, u, v;
-			sscanf(file, "%d%d%d%d%n", &ty, &g, &u, &v, &offset);
-			file += offset;
-			if(g != previous_g + 1)
-			{
-				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-			}
-			previous_g = g;
-			C.circuit[i].gates[g] = gate(ty, u, v);
-		}
-		max_gate = previous_g;
-		int cnt = 0;
-		while(max_gate)
-		{
-			cnt++;
-			max_gate >>= 1;
-		}
-		max_gate = 1;
-		while(cnt)
-		{
-			max_gate <<= 1;
-			cnt--;
-		}
-		int mx_gate = max_gate;
-		while(mx_gate)
-		{
-			cnt++;
-			mx_gate >>= 1;
-		}
-		if(n == 1)
-		{
-			//add a dummy gate to avoid ill-defined layer.
-			C.circuit[i].gates[max_gate] = gate(2, 0, 0);
-			C.circuit[i].bit_length = cnt;
-		}
-		else
-		{
-			C.circuit[i].bit_length = cnt - 1;
-		}
-		fprintf(stderr, "layer %d, bit_length %d\n", i, C.circuit[i].bit_length);
-		if(C.circuit[i].bit_length > max_bit_length)
-			max_bit_length = C.circuit[i].bit_length;
-	}
-	p -> init_array(max_bit_length);
-
-	beta_g_r0 = new prime_field::field_element[(1 << max_bit_length)];
-	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];
-	beta_v = new prime_field::field_element[(1 << max_bit_length)];
-	beta_u = new prime_field::field_element[(1 << max_bit_length)];
+	FILE *circuit_in;
+	circuit_in = fmemopen(file, strlen(file), "r");
+	if(circuit_in == NULL)
+		circuit_error("cannot read string", -1, -1);
+	read_circuit_from_FILE(circuit_in);
+	fclose(circuit_in);
 }
 
 prime_field::field_element verifier::add(int depth)
-- 
2.43.0

