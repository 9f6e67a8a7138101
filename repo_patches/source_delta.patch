From 6a720f6028f76b1ef337c0a820c216cb15dae59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 01/25] fix: draw the phase 2 challenges of the input relay
 layer at random

The linear verifier replaced them by 0, so a prover could pick round
polynomials that vanish there and have a false output claim accepted.
---
 src/linear_gkr/verifier_fast_track.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index a61bd56..b90ecfa 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -498,8 +498,6 @@ bool verifier::verify()
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
 			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
-- 
2.43.0


From 38b4e0980f4ab4b4be540b9a266d03f192cac4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 02/25] fix: hold the prover to one value of v_u per layer

The linear verifier used p -> v_u during phase 2 and the value returned by
sumcheck_finalize afterwards; a prover giving two different values had a
false output claim accepted.
---
 src/linear_gkr/verifier_fast_track.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index b90ecfa..16e7476 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -495,12 +495,13 @@ bool verifier::verify()
 		std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		auto claimed_v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
-			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+			if(poly.eval(0) + poly.eval(1) + direct_relay_value * claimed_v_u != alpha_beta_sum)
 			{
 				fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 				return false;
@@ -508,7 +509,7 @@ bool verifier::verify()
 			else
 			{
 			}
-			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * claimed_v_u;
 		}
 		t1 = std::chrono::high_resolution_clock::now();
 		time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
@@ -517,6 +518,11 @@ bool verifier::verify()
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		if(v_u != claimed_v_u)
+		{
+			fprintf(stderr, "Verification fail, inconsistent v_u, circuit level %d\n", i);
+			return false;
+		}
 
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
 		auto mult_value = mult(i);
-- 
2.43.0


From e7b8532412bec539aef83740f22161345c6ba47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 03/25] fix: the verifiers evaluate the claimed output
 themselves

The extension of the claimed output was taken from the prover, which could
evaluate another output vector than the one it claims.
---
 src/linear_gkr/verifier_fast_track.cpp       | 2 +-
 src/traditional_gkr/verifier_bc_clogc.cpp    | 2 +-
 src/traditional_gkr/verifier_traditional.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 16e7476..d33fcc3 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -443,7 +443,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f6a7edd..4ee46f3 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -257,7 +257,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, one_minus_r_b_0, r_b_0, result, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, C.total_blocks_binary_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
+	prime_field::field_element a_0 = V_in(r_b_0, one_minus_r_b_0, r_0, one_minus_r_0, result, C.total_blocks_binary_length, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
 	delete[] result;
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 6776232..05d5262 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -220,7 +220,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	//std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
-- 
2.43.0


From 5a3c4b717a69f3788c33a29382684853c6bdadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 04/25] fix: the data-parallel verifier computes the block
 weight itself

It used the prover's beta_blk_val in the semi final check, which let the
prover choose the value that makes a false claim pass.
---
 src/traditional_gkr/verifier_bc_clogc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index 4ee46f3..6019722 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -374,7 +374,11 @@ bool verifier::verify()
 //		std::cout << "mult_value = " << mult_value.to_string(10) << std::endl;
 //		std::cout << "add_value = " << add_value.to_string(10) << std::endl;
 
-		if(alpha_beta_sum != p -> beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
+		prime_field::field_element beta_blk_val = prime_field::field_element(1);
+		for(int j = 0; j < C.total_blocks_binary_length; ++j)
+			beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);
+
+		if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From 5120080c411d025ba608edc37c96ce74e81e40d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 05/25] fix: dummy input gates are 0 for the prover as they are
 for the verifier

With a nonzero operand in a dummy input gate the honest prover was rejected.
---
 src/linear_gkr/prover_fast_track.cpp | 2 +-
 src/traditional_gkr/prover_clogc.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_track.cpp b/src/linear_gkr/prover_fast_track.cpp
index 8273506..781fd1f 100644
--- a/src/linear_gkr/prover_fast_track.cpp
+++ b/src/linear_gkr/prover_fast_track.cpp
@@ -44,7 +44,7 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index a89cabc..6b69ffb 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -44,7 +44,7 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
-- 
2.43.0


From 3cccb421df4ace5078aec723c779f445659290fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 06/25] fix: do not read past the block arrays when there is a
 single block

With one block sumcheck_phase1_init of the data-parallel prover folded a
second block that does not exist; depending on what the heap held there the
honest prover was rejected.
---
 src/traditional_gkr/prover_bc_clogc.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index a632193..b38a8f9 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -351,14 +351,14 @@ void prover::sumcheck_phase1_init(prime_field::field_element previous_random)
 	prime_field::field_element zero = prime_field::field_element(0);
 	for(int i = 0; i < total_uv; ++i)
 	{
-		prime_field::field_element one_value, zero_value;
-		one_value = block_v_value[1 << length_u | i];
-		zero_value = block_v_value[i];
-
-		V_mult_add[i] = (one_value - zero_value) * previous_random + zero_value;
+		V_mult_add[i] = block_v_value[i];
+		if(block_binary_length > 0)
+			V_mult_add[i] = (block_v_value[1 << length_u | i] - V_mult_add[i]) * previous_random + V_mult_add[i];
 		V_mult_add_copy[i] = V_mult_add[i];
 	}
-	beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];
+	beta_blk_val = block_beta_value[0];
+	if(block_binary_length > 0)
+		beta_blk_val = (block_beta_value[1] - beta_blk_val) * previous_random + beta_blk_val;
 	
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
-- 
2.43.0


From b7ffd16b2471806bd7a2f10fc99b791c915af23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 07/25] fix: testBit reads bits 64 and 128 from the limb that
 holds them

---
 src/linear_gkr/prime_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 23edac2..4b4c106 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -192,11 +192,11 @@ namespace prime_field
 
 	int u256b::testBit(int i)
 	{
-		if(i <= 64)
+		if(i < 64)
 		{
 			return (lo >> i) & 1;
 		}
-		else if(i <= 128)
+		else if(i < 128)
 		{
 			return (mid >> (i - 64)) & 1;
 		}
-- 
2.43.0


From 8d0706a75f23bde18cd23675744076736a012bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 08/25] fix: free the buffer of the GMP conversion as an array

---
 src/linear_gkr/prime_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 4b4c106..4097f5b 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -620,7 +620,7 @@ namespace prime_field
 		}
 		str_value[256] = 0;
 		mpz_class ret(str_value, 2);
-		delete str_value;
+		delete[] str_value;
 		return ret;
 	} 
 	bool field_element::operator == (const field_element &b) const
-- 
2.43.0


From 25409fb2b03ecd911d91303157079aeedd1c5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:13 +0000
Subject: [PATCH 09/25] fix: gen mode 4 multiplies the matrices' entries, not
 positions i*k and k*j

---
 bin/gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/gen.cpp b/bin/gen.cpp
index 36ec9ae..1db838b 100644
--- a/bin/gen.cpp
+++ b/bin/gen.cpp
@@ -239,7 +239,7 @@ int main(int argc, char **argv)
 				for(int k = 0; k < mat_sz; ++k)
 				{
 					int id = i * mat_sz * mat_sz + j * mat_sz + k;
-					int a = i * k, b = k * j;
+					int a = i * mat_sz + k, b = mat_sz * mat_sz + k * mat_sz + j;
 					printf("%d %d %d %d ", 1, id, a, b);
 				}
 			}
-- 
2.43.0


From 9e07882ed5596141903a54f5bad1d5ec5a00057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:32 +0000
Subject: [PATCH 10/25] fix: the data-parallel translator writes the end of a
 summation range, not its last gate

---
 parser_sha_data_parallel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_sha_data_parallel.cpp b/parser_sha_data_parallel.cpp
index c7b2bc2..f4a5032 100644
--- a/parser_sha_data_parallel.cpp
+++ b/parser_sha_data_parallel.cpp
@@ -667,11 +667,13 @@ void merge_and_output()
 				}
 				else
 				{
+					long long v = sha256.layers[i].gates[j].v;
 					if(sha256.layers[i].gates[j].ty == sum_gate)
 					{
-						printf("%lld %lld\n", sha256.layers[i].gates[j].u, sha256.layers[i].gates[j].v + 1);
+						v = v + 1; //SS names the last gate of the range, the circuit format its end
+						printf("%lld %lld\n", sha256.layers[i].gates[j].u, v);
 					}
-					fprintf(sha256_circuit_file, "%d %d %015lld %lld ", sha256.layers[i].gates[j].ty, sha256.layers[i].gates[j].g + r * block_size, sha256.layers[i].gates[j].u + r * prev_block_size, sha256.layers[i].gates[j].v + r * prev_block_size);
+					fprintf(sha256_circuit_file, "%d %d %015lld %lld ", sha256.layers[i].gates[j].ty, sha256.layers[i].gates[j].g + r * block_size, sha256.layers[i].gates[j].u + r * prev_block_size, v + r * prev_block_size);
 				}
 			}
 		}
-- 
2.43.0


From 790cf0df1eb2968cb2963baadc77a347ddade53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 11/25] fix: check the knowledge of every witness and of the
 input commitment

---
 include/VPD/input_vpd.h        | 1 +
 src/VPD/inputvpd.cpp           | 2 +-
 src/VPD/vpdR.cpp               | 2 +-
 src/linear_gkr/zk_verifier.cpp | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/VPD/input_vpd.h b/include/VPD/input_vpd.h
index 947dbbf..d955fe5 100644
--- a/include/VPD/input_vpd.h
+++ b/include/VPD/input_vpd.h
@@ -22,6 +22,7 @@ using namespace bn;
 namespace input_vpd
 {
     std::pair<mpz_class, mpz_class> commit(Ec1& digest, Ec1& digesta, Ec1& digest2, Ec1& digest2a, vector<mpz_class>& input, vector<mpz_class>& input2);
+    bool check_commit(Ec1 digest, Ec1 digesta, Ec1 digest2, Ec1 digest2a);
     void KeyGen(int d);
     void pre_input(std::vector<mpz_class>& input);
     void prove(vector<mpz_class> r, mpz_class& ans, vector<mpz_class>& input, vector<mpz_class> &input2, vector<Ec1>& witness, vector<Ec1>& witnessa, mpz_class r_f, mpz_class r_f2, mpz_class Z);
diff --git a/src/VPD/inputvpd.cpp b/src/VPD/inputvpd.cpp
index 46d976e..af3095b 100644
--- a/src/VPD/inputvpd.cpp
+++ b/src/VPD/inputvpd.cpp
@@ -383,7 +383,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/VPD/vpdR.cpp b/src/VPD/vpdR.cpp
index cd85b81..076adb3 100644
--- a/src/VPD/vpdR.cpp
+++ b/src/VPD/vpdR.cpp
@@ -183,7 +183,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, mpz_class ans, vector<Ec1>& witness
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index af21648..216a204 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -1217,6 +1217,7 @@ bool zk_verifier::verify(const char* output_path)
 	verification_time += vpd_input_span.count();
 	auto poly_commit_prove_time_t1 = std::chrono::high_resolution_clock::now();
 	poly_commit_scheme_time += std::chrono::duration_cast<std::chrono::duration<double>>(poly_commit_prove_time_t1 - poly_commit_prove_time_t0).count();
+	input_0_verify &= input_vpd::check_commit(digest_input.first[0], digest_input.first[1], digest_input.second[0], digest_input.second[1]);
 	if(!(input_0_verify))
 	{
 		fprintf(stderr, "Verification fail, input vpd.\n");
-- 
2.43.0


From 725e7a2c10f978df61bb4185ab3aecdb0237c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 12/25] fix: the ZK verifier evaluates the claimed output
 itself

---
 src/linear_gkr/zk_verifier.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 216a204..b7377d9 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -866,6 +866,9 @@ bool zk_verifier::verify(const char* output_path)
 		trans.msg.push_back(container(digest_input.first[i]));
 	for(int i = 0; i < digest_input.second.size(); ++i)
 		trans.msg.push_back(container(digest_input.second[i]));
+	//the claimed output is public: the challenges depend on it, but it is not part of the proof
+	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
+		trans.msg.push_back(container(result[i], container::randomness_indicator));
 	prime_field::field_element alpha, beta;
 	alpha.value = 1;
 	beta.value = 0;
@@ -884,7 +887,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
-- 
2.43.0


From c148d0351d031f2f3a38eb714b2cf867725cb045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 13/25] fix: the ZK verifier computes the public factors of the
 masks itself

---
 src/linear_gkr/zk_verifier.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index b7377d9..856f102 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -897,6 +897,8 @@ bool zk_verifier::verify(const char* output_path)
 	prime_field::field_element alpha_beta_sum = a_0; //+ a_1
 
 	prime_field::field_element direct_relay_value;
+	//factors of the masks of V_i(r_0) and V_i(r_1); the output is not masked
+	prime_field::field_element Z_0 = prime_field::field_element(0), Z_1 = prime_field::field_element(0);
 	for(int i = C.total_depth - 1; i >= 1; --i)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
@@ -1088,7 +1090,21 @@ bool zk_verifier::verify(const char* output_path)
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
 		std::vector<mpz_class> r;
 		r.resize(2);
-		r[0] = p -> prepreu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
+		prime_field::field_element Iuv = prime_field::field_element(1), Zu = prime_field::field_element(1), Zv = prime_field::field_element(1);
+		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
+		{
+			Iuv = Iuv * one_minus_r_u[j] * one_minus_r_v[j];
+			Zu = Zu * r_u[j] * one_minus_r_u[j];
+			Zv = Zv * r_v[j] * one_minus_r_v[j];
+		}
+		//the first variable of R is the last coordinate of the layer's point, the output has none
+		prime_field::field_element R_0 = prime_field::field_element(0), R_1 = prime_field::field_element(0);
+		if(i != C.total_depth - 1)
+		{
+			R_0 = r_0[C.circuit[i].bit_length - 1];
+			R_1 = r_1[C.circuit[i].bit_length - 1];
+		}
+		r[0] = R_0.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
 		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
 		prime_field::field_element tmp_rg1;
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
@@ -1103,7 +1119,7 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
 		verification_time += vpdr_verify_0_span.count();
 
-		r[0] = p -> preprev1.to_gmp_class();
+		r[0] = R_1.to_gmp_class();
 		witnesses = p -> prove_R(r, maskRg2_value_mpz);
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
 		for(int i = 0; i < witnesses.first.size(); ++i)
@@ -1164,7 +1180,7 @@ bool zk_verifier::verify(const char* output_path)
 		maskpoly_value.value = prime_field::u512b(maskpoly_value_mpz.get_str().c_str(), maskpoly_value_mpz.get_str().length(), 10);
 		maskRg1_value.value = prime_field::u512b(maskRg1_value_mpz.get_str().c_str(), maskRg1_value_mpz.get_str().length(), 10);
 		maskRg2_value.value = prime_field::u512b(maskRg2_value_mpz.get_str().c_str(), maskRg2_value_mpz.get_str().length(), 10);
-		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
+		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * Iuv * Z_0 * maskRg1_value + beta * Iuv * Z_1 * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
@@ -1181,6 +1197,8 @@ bool zk_verifier::verify(const char* output_path)
 			alpha_beta_sum = alpha * v_u + beta * v_v;
 		else
 			alpha_beta_sum = v_u;
+		Z_0 = Zu;
+		Z_1 = Zv;
 		delete[] r_0;
 		delete[] r_1;
 		delete[] one_minus_r_0;
@@ -1205,7 +1223,7 @@ bool zk_verifier::verify(const char* output_path)
 	auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 
 	input_0_mpz = 0, input_1_mpz = 0;
-	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, p -> Zu.to_gmp_class());
+	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, Z_0.to_gmp_class());
 	proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses_0.first.size() + witnesses_0.second.size());
 	for(int i = 0; i < witnesses_0.first.size(); ++i)
 		trans.msg.push_back(container(witnesses_0.first[i]));
@@ -1214,7 +1232,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 
 	std::chrono::high_resolution_clock::time_point vpd_input_0 = std::chrono::high_resolution_clock::now();
-	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], p -> Zu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
+	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], Z_0.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
 	std::chrono::high_resolution_clock::time_point vpd_input_1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> vpd_input_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_input_1 - vpd_input_0);
 	verification_time += vpd_input_span.count();
@@ -1227,8 +1245,6 @@ bool zk_verifier::verify(const char* output_path)
 		return false;
 	}
 
-	input_0 = input_0 + p->Zu * p->sumRc.eval(p->preu1);
-	
 	auto is0 = input_0_mpz.get_str();
 	input_0.value = prime_field::u512b(is0.c_str(), is0.length(), 10);
 	
-- 
2.43.0


From 06455dec7477e0662cf8e8ab185afef41404d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 14/25] fix: fix the sum of the masking polynomial before rho
 is drawn

---
 include/linear_gkr/zk_prover.h |  1 +
 src/linear_gkr/zk_prover.cpp   | 17 +++++++++--------
 src/linear_gkr/zk_verifier.cpp |  8 ++++++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/linear_gkr/zk_prover.h b/include/linear_gkr/zk_prover.h
index 3c5b663..bc3b63b 100644
--- a/include/linear_gkr/zk_prover.h
+++ b/include/linear_gkr/zk_prover.h
@@ -67,6 +67,7 @@ public:
 
 	prime_field::field_element *maskpoly; 
 	std::vector<mpz_class> maskpoly_gmp;
+	prime_field::field_element maskpoly_sum; //claimed before rho is drawn
 	prime_field::field_element maskpoly_sumc;
 	prime_field::field_element maskpoly_sumr;
 	prime_field::field_element rho;
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 02ab256..c0d6fa1 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -163,6 +163,14 @@ vector<bn::Ec1> zk_prover::generate_maskpoly_pre_rho(int length, int degree)
 		maskpoly[i] = prime_field::random();
 	}
 	
+	maskpoly_sum = maskpoly[length * degree];
+	for(int i = length * degree; i >= 0; i--)
+		maskpoly_sum = maskpoly_sum + maskpoly[i];
+	for(int i = 1; i <= 6; i++)
+		maskpoly_sum = maskpoly_sum + maskpoly[length * degree + i];
+	for(int i = 1; i < length; i++)
+		maskpoly_sum = maskpoly_sum + maskpoly_sum;
+	
 	vpd_test::environment_init();
 	vpd_test::KeyGen(length);
 	vector<bn::Ec1> ret;
@@ -236,14 +244,7 @@ void zk_prover::generate_maskpoly_after_rho(int length, int degree)
 	for(int i = 0; i < length * degree + 1 + 6; i++){
 		maskpoly[i] = maskpoly[i] * rho;
 	}
-	maskpoly_sumc = maskpoly[length * degree];
-	for(int i = length * degree; i >= 0; i--)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
-	for(int i = 1; i <= 6; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[length * degree + i];
-
-	for(int i = 1; i < length; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
+	maskpoly_sumc = maskpoly_sum * rho;
 	maskpoly_sumr = prime_field::field_element(0);
 }
 
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 856f102..48c3c5b 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -903,7 +903,6 @@ bool zk_verifier::verify(const char* output_path)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
 	//	std::cerr << "Bound u start" << std::endl;
-		auto rho = trans.random();
 		std::vector<bn::Ec1> digest_mask;
 
 		auto digest_maskR = p -> sumcheck_init(i, C.circuit[i].bit_length, C.circuit[i - 1].bit_length, C.circuit[i - 1].bit_length, alpha, beta, r_0, r_1, one_minus_r_0, one_minus_r_1);
@@ -914,6 +913,11 @@ bool zk_verifier::verify(const char* output_path)
 			trans.msg.push_back(digest_mask[j]);
 		for(int j = 0; j < digest_maskR.size(); ++j)
 			trans.msg.push_back(digest_maskR[j]);
+		//the sum of the masking polynomial is fixed before rho is known
+		prime_field::field_element maskpoly_sum = p -> maskpoly_sum;
+		proof_size += sizeof(prime_field::field_element) / 2;
+		trans.msg.push_back(container(maskpoly_sum, container::fld_ele_indicator));
+		auto rho = trans.random();
 		p -> rho = rho;
 		p -> generate_maskpoly_after_rho(C.circuit[i - 1].bit_length * 2 + 1, 2);
 		bool r_verify_cc = vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
@@ -921,7 +925,7 @@ bool zk_verifier::verify(const char* output_path)
 		
 		//add maskpoly
 
-		alpha_beta_sum.value = (alpha_beta_sum.value + p->maskpoly_sumc.value) % prime_field::mod;
+		alpha_beta_sum = alpha_beta_sum + rho * maskpoly_sum;
 
 		p -> sumcheck_phase1_init();
 		prime_field::field_element previous_random = prime_field::field_element(0);
-- 
2.43.0


From 9826b0d841f577cad3abe2050624b8c070aae344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 15/25] fix: draw the ZK challenges after the messages they
 protect

---
 src/linear_gkr/zk_verifier.cpp | 53 +++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 48c3c5b..42ece66 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -930,20 +930,13 @@ bool zk_verifier::verify(const char* output_path)
 		p -> sumcheck_phase1_init();
 		prime_field::field_element previous_random = prime_field::field_element(0);
 		//next level random
-		auto r_u = generate_randomness(C.circuit[i - 1].bit_length);
-		auto r_v = generate_randomness(C.circuit[i - 1].bit_length);
-		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
-		auto r_c = generate_randomness(1);
+		//each is drawn when the message it protects is in the transcript
+		auto r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
+		auto r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		prime_field::field_element *one_minus_r_u, *one_minus_r_v;
 		one_minus_r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		one_minus_r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		
-		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
-		{
-			one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
-			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
-		}
-
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{	
 			if(j == C.circuit[i - 1].bit_length - 1){
@@ -955,6 +948,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 
 
@@ -977,6 +972,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 			
 
@@ -999,11 +996,13 @@ bool zk_verifier::verify(const char* output_path)
 	//	std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
+		auto v_u = p -> v_u;
+		proof_size += sizeof(prime_field::field_element) / 2;
+		trans.msg.push_back(container(v_u, container::fld_ele_indicator));
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			if(j == C.circuit[i - 1].bit_length - 1){
 				quintuple_poly poly = p -> sumcheck_phase2_updatelastbit(previous_random, j);
 				proof_size += sizeof(quintuple_poly) / 2;
@@ -1014,8 +1013,10 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
 				poly.f = poly.f;
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1024,7 +1025,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 			else
 			{
@@ -1035,8 +1036,10 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
 				poly.c = poly.c;
 			
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1045,7 +1048,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 		}
 
@@ -1056,8 +1059,14 @@ bool zk_verifier::verify(const char* output_path)
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		
 
-		auto v_u = final_claims.first;
+		if(final_claims.first != v_u)
+		{
+			fprintf(stderr, "Verification fail, two values of v_u, circuit level %d\n", i);
+			return false;
+		}
 		auto v_v = final_claims.second;
+		proof_size += sizeof(prime_field::field_element) / 2;
+		trans.msg.push_back(container(v_v, container::fld_ele_indicator));
 
 		std::chrono::high_resolution_clock::time_point predicates_calc_t0 = std::chrono::high_resolution_clock::now();
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
@@ -1081,14 +1090,18 @@ bool zk_verifier::verify(const char* output_path)
 		auto bit_test_value = predicates_value[13];
 		quadratic_poly poly = p->sumcheck_finalround(previous_random, C.circuit[i - 1].bit_length << 1, add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (v_u * (prime_field::field_element(1) - v_v)));
 
+		proof_size += sizeof(quadratic_poly) / 2;
+		trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
+		trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
+		trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+		auto r_c = generate_randomness(1);
+
 		if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 		{
 			fprintf(stderr, "Verification fail, phase2, lastbit for c\n");
 			return false;
 		}
-		if(i == 1)
-			r_c[0] = prime_field::field_element(0);
-		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * p -> v_u;
+		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * v_u;
 
 		auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
-- 
2.43.0


From 6a5bbad3a14c6f5898e347a8add8fac71d9b5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:50 +0000
Subject: [PATCH 16/25] fix: summation up to the end of a block in the ZK
 verifier's parallel predicates

---
 src/linear_gkr/zk_verifier.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 42ece66..e23c428 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -231,6 +231,8 @@ vector<prime_field::field_element> zk_verifier::predicates(int depth, prime_fiel
 			g = g & ((1 << C.circuit[depth].log_block_size) - 1);
 			u = u & ((1 << C.circuit[depth - 1].log_block_size) - 1);
 			v = v & ((1 << C.circuit[depth - 1].log_block_size) - 1);
+			if(C.circuit[depth].gates[i].ty == 5) //exclusive end of the range, may be the end of the block
+				v = u + (C.circuit[depth].gates[i].v - C.circuit[depth].gates[i].u);
 			switch(C.circuit[depth].gates[i].ty)
 			{
 				case 0:
-- 
2.43.0


From f707d45e8fb39e6927d5456fe0898cd9cc72db4c Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 17/25] fix: keep the differences of the multi-threaded
 prover's second phase non-negative

u512b is unsigned: without the added modulus a difference wraps modulo 2^512
and its residue is wrong, so honest proofs were rejected.
---
 src/linear_gkr/prover_fast_para_track.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 8ca6cba..c78bc87 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -629,13 +629,13 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 		{
 			
 			p -> nV_mult_add[i].b.value = (p -> V_mult_add[g_zero].a.value * previous_random.value + p -> V_mult_add[g_zero].b.value) % prime_field::mod;
-			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value) % prime_field::mod;
+			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> naddV_array[i].b.value = (p -> addV_array[g_zero].a.value * previous_random.value + p -> addV_array[g_zero].b.value) % prime_field::mod;
-			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value) % prime_field::mod;
+			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> nadd_mult_sum[i].b.value = (p -> add_mult_sum[g_zero].a.value * previous_random.value + p -> add_mult_sum[g_zero].b.value) % prime_field::mod;
-			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value) % prime_field::mod;
+			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
 		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-- 
2.43.0


From d10c68f3c5c772820cc3bfcb569ca804c077818f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 18:16:45 +0000
Subject: [PATCH 18/25] fix: complete the shared tables of the multi-threaded
 prover before they are read

Each thread computed its slice of beta_g_sum (and beta_u) and went on to read
all of it, without waiting for the other slices.
---
 src/linear_gkr/prover_fast_para_track.cpp | 59 ++++++++++++++---------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index c78bc87..d3f6a3e 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -182,6 +182,24 @@ prover::~prover()
 {
 }
 
+//every thread of phase1_init_func reads all of beta_g_sum, so it is complete before they start
+void beta_g_init_func(prover* p, int id)
+{
+	int first_half = p -> length_g >> 1;
+	int mask_fhalf = (1 << first_half) - 1;
+	int bs = (1 << p -> length_g) / NUM_THREADS;
+	if(bs == 0)
+		bs = 1;
+	int st = bs * id, ed = bs * (id + 1);
+	if(ed > (1 << p -> length_g))
+		ed = (1 << p -> length_g);
+	for(int i = st; i < ed; ++i)
+	{
+		p -> beta_g_sum[i].value = (p -> beta_g_r0_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value 
+							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
+	}
+}
+
 void phase1_init_func(prover* p, int id)
 {
 	int total_uv = (1 << (p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length));
@@ -206,19 +224,6 @@ void phase1_init_func(prover* p, int id)
 	}
 	
 
-	int mask_fhalf = (1 << first_half) - 1;
-	bs = (1 << p -> length_g) / NUM_THREADS;
-	if(bs == 0)
-		bs = 1;
-	st = bs * id, ed = bs * (id + 1);
-	if(ed > (1 << p -> length_g))
-		ed = (1 << p -> length_g);
-	for(int i = st; i < ed; ++i)
-	{
-		p -> beta_g_sum[i].value = (p -> beta_g_r0_fhalf[i & mask_fhalf].value * p -> beta_g_r0_shalf[i >> first_half].value 
-							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
-	}
-	
 	/*
 
 	for(int i = st; i < ed; ++i)
@@ -306,6 +311,11 @@ void prover::sumcheck_phase1_init()
 
 	std::thread threads[NUM_THREADS];
 
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(beta_g_init_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
+
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase1_init_func, this, i);
 	for(int i = 0; i < NUM_THREADS; ++i)
@@ -411,26 +421,26 @@ quadratic_poly prover::sumcheck_phase1_update(prime_field::field_element previou
 	return ret;
 }
 
-void phase2_init_func(prover* p, int id)
+//every thread of phase2_init_func reads all of beta_u, so it is complete before they start
+void beta_u_init_func(prover* p, int id)
 {
-	int first_half = p -> length_u >> 1, second_half = p -> length_u - first_half;
+	int first_half = p -> length_u >> 1;
 	int mask_fhalf = (1 << first_half) - 1;
-	
-	int bs, st, ed;
-	
-	bs = (1 << p -> length_u) / NUM_THREADS;
+	int bs = (1 << p -> length_u) / NUM_THREADS;
 	if(bs == 0)
 		bs = 1;
-	st = id * bs;
-	ed = (id + 1) * bs;
+	int st = id * bs, ed = (id + 1) * bs;
 	if(ed > (1 << p -> length_u))
 		ed = (1 << p -> length_u);
-	
 	for(int i = st; i < ed; ++i)
 	{
 		p -> beta_u[i].value = p -> beta_u_fhalf[i & mask_fhalf].value * p -> beta_u_shalf[i >> first_half].value % prime_field::mod;
 	}
+}
 
+void phase2_init_func(prover* p, int id)
+{
+	int bs, st, ed;
 	
 	int total_uv = (1 << p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length);
 	int total_g = (1 << p -> C.circuit[p -> sumcheck_layer_id].bit_length);
@@ -589,6 +599,11 @@ void prover::sumcheck_phase2_init(prime_field::field_element previous_random, co
 	
 	total_uv = (1 << C.circuit[sumcheck_layer_id - 1].bit_length);
 	std::thread threads[NUM_THREADS];
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(beta_u_init_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
+
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase2_init_func, this, i);
 	
-- 
2.43.0


From 904cc1efbfe8f63f9dc505039c3ca8eae50acdbd Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 18:16:45 +0000
Subject: [PATCH 19/25] fix: the verifier of the multi-threaded prover
 evaluates the claimed output itself

The extension of the claimed output was taken from the prover, which could
evaluate another output vector than the one it claims.
---
 src/linear_gkr/verifier_fast_para_track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index f43624d..1a01a11 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -226,7 +226,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
-- 
2.43.0


From 63c8dc237282a5f075bf30194332fc95e64b7c50 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 18:16:45 +0000
Subject: [PATCH 20/25] fix: accept dummy input gates with the multi-threaded
 prover

The reader pads an input layer of one gate with a dummy gate, which prover and
verifier then refused.
---
 src/linear_gkr/prover_fast_para_track.cpp   | 7 +++++--
 src/linear_gkr/verifier_fast_para_track.cpp | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index d3f6a3e..f8b7a9d 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -70,8 +70,11 @@ prime_field::field_element* prover::evaluate()
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
-		assert(ty == 3);
-		circuit_value[0][g] = prime_field::field_element(u);
+		assert(ty == 3 || ty == 2);
+		if(ty == 3)
+			circuit_value[0][g] = prime_field::field_element(u);
+		else
+			circuit_value[0][g] = prime_field::field_element(0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index 1a01a11..2ce2c9d 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -355,6 +355,8 @@ bool verifier::verify()
 		{
 			input[g] = prime_field::field_element(C.circuit[0].gates[g].u);
 		}
+		else if(C.circuit[0].gates[g].ty == 2)
+			input[g] = prime_field::field_element(0);
 		else
 			assert(false);
 	}
-- 
2.43.0


From 668a096a3179ab2db87c01b91bcd0070b3acba03 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 18:19:54 +0000
Subject: [PATCH 21/25] fix: keep the multi-threaded prover's sums within the
 range of the reduction

Up to 31 unreduced products were summed per table entry, and 8 per round
polynomial; the reduction is only correct for sums of a few products, so honest
proofs of large layers or layers with fan-out were rejected.
---
 src/linear_gkr/prover_fast_para_track.cpp | 51 +++++++----------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index f8b7a9d..fcc7a9d 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -373,22 +373,11 @@ void phase1_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 
 		}
-		if(i % 4 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 	p -> rets[id].a.value = p -> rets[id].a.value % prime_field::mod;
@@ -534,7 +523,7 @@ void phase2_init_func(prover* p, int id)
 				{
 					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value + (p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod * p -> v_u.value) % prime_field::mod;
 					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
+					if(p -> add_mult_sum_counter[v] > 1)
 					{
 						p -> add_mult_sum_counter[v] = 0;
 						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
@@ -546,14 +535,14 @@ void phase2_init_func(prover* p, int id)
 					p -> addV_array[v].b.value = ((p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod) * p -> v_u.value + p -> addV_array[v].b.value);
 
 					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
+					if(p -> add_mult_sum_counter[v] > 1)
 					{
 						p -> add_mult_sum_counter[v] = 0;
 						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
 					}
 
 					p -> addV_array_counter[v]++;
-					if(p -> addV_array_counter[v] > 30)
+					if(p -> addV_array_counter[v] > 1)
 					{
 						p -> addV_array_counter[v] = 0;
 						p -> addV_array[v].b.value = p -> addV_array[v].b.value % prime_field::mod;
@@ -656,24 +645,12 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
-		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
+								  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 
-- 
2.43.0


From 992e497921cb2a1ee98ab8d08e17d17c3d0ae7c0 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 22/25] fix: convert negative integers to p - k instead of 2^64
 - k

---
 include/linear_gkr/prime_field.h | 1 +
 src/linear_gkr/prime_field.cpp   | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/linear_gkr/prime_field.h b/include/linear_gkr/prime_field.h
index 13f7dec..8699453 100644
--- a/include/linear_gkr/prime_field.h
+++ b/include/linear_gkr/prime_field.h
@@ -95,6 +95,7 @@ namespace prime_field
 
 		field_element();
 		field_element(const int);
+		field_element(const long long);
 		field_element(const unsigned long long);
 		field_element operator + (const field_element &b) const;
 		field_element operator * (const field_element &b) const;
diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 4097f5b..c887f48 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -509,9 +509,14 @@ namespace prime_field
 	{
 		value = (u256b)(unsigned long long)0;
 	}
-	field_element::field_element(const int x)
+	field_element::field_element(const int x) : field_element((long long)x)
 	{
-		value = (u256b)(unsigned long long)x;
+	}
+	field_element::field_element(const long long x)
+	{
+		value = (u256b)(unsigned long long)(x < 0 ? -(unsigned long long)x : (unsigned long long)x);
+		if(x < 0) //-k is p - k
+			value = mod_512 - value;
 	}
 	field_element::field_element(const unsigned long long x)
 	{
-- 
2.43.0


From 23e996236344cf01fd5a8fc51d9a767eba81d25f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 23/25] fix: keep input values beyond 32 bits

---
 include/linear_gkr/circuit_fast_track.h      | 5 +++--
 include/traditional_gkr/circuit_bc_clogc.h   | 5 +++--
 src/linear_gkr/prover_fast_para_track.cpp    | 3 ++-
 src/linear_gkr/prover_fast_track.cpp         | 3 ++-
 src/linear_gkr/verifier_fast_para_track.cpp  | 5 +++--
 src/linear_gkr/zk_prover.cpp                 | 3 ++-
 src/traditional_gkr/prover_bc_clogc.cpp      | 3 ++-
 src/traditional_gkr/prover_clogc.cpp         | 3 ++-
 src/traditional_gkr/verifier_bc_clogc.cpp    | 5 +++--
 src/traditional_gkr/verifier_traditional.cpp | 5 +++--
 10 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/include/linear_gkr/circuit_fast_track.h b/include/linear_gkr/circuit_fast_track.h
index 985da2e..794fb17 100644
--- a/include/linear_gkr/circuit_fast_track.h
+++ b/include/linear_gkr/circuit_fast_track.h
@@ -8,9 +8,10 @@
 class gate
 {
 public:
-	int ty, u, v;
+	int ty, v;
+	long long u; //a wire, or the value of an input
 	gate(){}
-	gate(int t, int U, int V)
+	gate(int t, long long U, int V)
 	{
 		ty = t, u = U, v = V;
 	}
diff --git a/include/traditional_gkr/circuit_bc_clogc.h b/include/traditional_gkr/circuit_bc_clogc.h
index 961b28c..bf323e6 100644
--- a/include/traditional_gkr/circuit_bc_clogc.h
+++ b/include/traditional_gkr/circuit_bc_clogc.h
@@ -8,9 +8,10 @@
 class gate
 {
 public:
-	int ty, u, v;
+	int ty, v;
+	long long u; //a wire, or the value of an input
 	gate(){}
-	gate(int t, int U, int V)
+	gate(int t, long long U, int V)
 	{
 		ty = t, u = U, v = V;
 	}
diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index fcc7a9d..953c344 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -65,7 +65,8 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, v, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
diff --git a/src/linear_gkr/prover_fast_track.cpp b/src/linear_gkr/prover_fast_track.cpp
index 781fd1f..800c8fe 100644
--- a/src/linear_gkr/prover_fast_track.cpp
+++ b/src/linear_gkr/prover_fast_track.cpp
@@ -38,7 +38,8 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, v, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index 2ce2c9d..123da08 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -32,8 +32,9 @@ void verifier::read_circuit(const char *path)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(circuit_in, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g, v;
+			long long u;
+			fscanf(circuit_in, "%d%d%lld%d", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index c0d6fa1..38624c1 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -57,7 +57,8 @@ prime_field::field_element* zk_prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, ty;
+		int g, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		ty = C.circuit[0].gates[g].ty;
diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index b38a8f9..08b8da5 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -55,7 +55,8 @@ prime_field::field_element* prover::evaluate()
 		circuit_value[blk][0] = new prime_field::field_element[(1 << C.blocks[blk].circuit[0].bit_length)];
 		for(int i = 0; i < (1 << C.blocks[blk].circuit[0].bit_length); ++i)
 		{
-			int g, u, v, ty;
+			int g, v, ty;
+			long long u;
 			g = i;
 			u = C.blocks[blk].circuit[0].gates[g].u;
 			v = C.blocks[blk].circuit[0].gates[g].v;
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index 6b69ffb..6fb57b7 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -38,7 +38,8 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, v, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index 6019722..ca6659d 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -41,8 +41,9 @@ void verifier::read_circuit(const char* path, int n_copy)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(input_file, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g, v;
+			long long u;
+			fscanf(input_file, "%d%d%lld%d", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 05d5262..599a45f 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -30,8 +30,9 @@ void verifier::read_circuit_from_FILE(FILE* file)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(file, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g, v;
+			long long u;
+			fscanf(file, "%d%d%lld%d", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-- 
2.43.0


From 480315a361a1895002629813dc0a21c037bb6e5e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 24/25] fix: the data-parallel translator passes every output
 to the last layer

---
 parser_sha_data_parallel.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parser_sha_data_parallel.cpp b/parser_sha_data_parallel.cpp
index f4a5032..240618c 100644
--- a/parser_sha_data_parallel.cpp
+++ b/parser_sha_data_parallel.cpp
@@ -251,6 +251,26 @@ void DAG_to_layered()
 			}
 		}
 	}
+	//outputs that are computed early are passed on to the last layer
+	for(auto x = sha256_dag_copy.circuit.begin(); x != sha256_dag_copy.circuit.end(); ++x)
+	{
+		auto &g0 = x -> second;
+		if(!g0.is_output)
+			continue;
+		auto pre_id = g0.id;
+		for(int i = g0.layered_lvl + 1; i <= max_lvl; ++i)
+		{
+			DAG_gate g;
+			g.id = make_pair((int)'R', relay_counter++);
+			g.layered_lvl = i;
+			g.is_output = false;
+			g.ty = relay_gate_id;
+			g.input0 = pre_id;
+			g.input1 = make_pair('N', 0);
+			sha256_dag.circuit[g.id] = g;
+			pre_id = g.id;
+		}
+	}
 	layer_gate_count.resize(max_lvl + 1);
 	padding_num.resize(max_lvl + 1);
 	for(int i = 0; i <= max_lvl; ++i)
-- 
2.43.0


From 39363d9ac69665495c6f19386eb8750cb6a051fa Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 20:39:55 +0000
Subject: [PATCH 25/25] fix: the other translators pass every output to the
 last layer, too

---
 parser_lanczos.cpp | 25 ++++++++++++++++++++++++-
 parser_sha.cpp     | 25 ++++++++++++++++++++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/parser_lanczos.cpp b/parser_lanczos.cpp
index 6175707..e5c6fee 100644
--- a/parser_lanczos.cpp
+++ b/parser_lanczos.cpp
@@ -128,6 +128,7 @@ void read_rdl(ifstream &rdl_in)
 }
 
 map<int, bool> circuit_input;
+vector<int> circuit_outputs;
 
 void read_circuit(ifstream &circuit_in)
 {
@@ -221,7 +222,13 @@ void read_circuit(ifstream &circuit_in)
         else if(std::regex_match(source_line, base_match, output_gate))
         {
             sscanf(source_line.c_str(), "P O%d = V%lld E", &tgt, &src0);
-            continue;
+            for(int i = 0; i < repeat_num; ++i)
+            {
+                if(circuit_input[src0])
+                    circuit_outputs.push_back(gates[rdl_output_pointer[src0 * repeat_num + i]].id);
+                else
+                    circuit_outputs.push_back(src0 * repeat_num + i + max_rdl_id);
+            }
         }
         else
         {
@@ -321,6 +328,22 @@ void normalize_and_output()
         max_id = max(max_id, gates[i].id);
     }
     max_id = max_id + 1;
+    //outputs that are computed early are passed on to the last layer
+    for(int i = 0; i < circuit_outputs.size(); ++i)
+    {
+        if(gates[id_to_addr[circuit_outputs[i]]].lvl == max_lvl)
+            continue;
+        gate g;
+        g.id = max_id++;
+        g.lvl = max_lvl;
+        g.ty = add;
+        g.u = circuit_outputs[i];
+        g.v = -10 - (max_lvl - 1);
+        id_to_addr[g.id] = gates.size();
+        gates[id_to_addr[g.u]].outputs.push_back(g.id);
+        gates[id_to_addr[g.v]].outputs.push_back(g.id);
+        gates.push_back(g);
+    }
     //relay gate
     int cur_gates_sz = gates.size();
     for(int i = 0; i < cur_gates_sz; ++i)
diff --git a/parser_sha.cpp b/parser_sha.cpp
index 4a3fa1e..2cf1a5e 100644
--- a/parser_sha.cpp
+++ b/parser_sha.cpp
@@ -136,6 +136,7 @@ void read_rdl(ifstream &rdl_in)
 }
 
 map<int, int> circuit_input;
+vector<int> circuit_outputs;
 
 void read_circuit(ifstream &circuit_in)
 {
@@ -233,7 +234,13 @@ void read_circuit(ifstream &circuit_in)
         else if(std::regex_match(source_line, base_match, output_gate))
         {
             sscanf(source_line.c_str(), "P O%d = V%lld E", &tgt, &src0);
-            continue;
+            for(int i = 0; i < repeat_num; ++i)
+            {
+                if(circuit_input.find(src0) != circuit_input.end())
+                    circuit_outputs.push_back(gates[rdl_output_pointer[circuit_input[src0] * repeat_num + i]].id);
+                else
+                    circuit_outputs.push_back(src0 * repeat_num + i + max_rdl_id);
+            }
         }
         else if(std::regex_match(source_line, base_match, xor_gate))
         {
@@ -474,6 +481,22 @@ void normalize_and_output()
         max_id = max(max_id, gates[i].id);
     }
     max_id = max_id + 1;
+    //outputs that are computed early are passed on to the last layer
+    for(int i = 0; i < circuit_outputs.size(); ++i)
+    {
+        if(gates[id_to_addr[circuit_outputs[i]]].lvl == max_lvl)
+            continue;
+        gate g;
+        g.id = max_id++;
+        g.lvl = max_lvl;
+        g.ty = add;
+        g.u = circuit_outputs[i];
+        g.v = -10 - (max_lvl - 1);
+        id_to_addr[g.id] = gates.size();
+        gates[id_to_addr[g.u]].outputs.push_back(g.id);
+        gates[id_to_addr[g.v]].outputs.push_back(g.id);
+        gates.push_back(g);
+    }
     //relay gate
     int cur_gates_sz = gates.size();
     for(int i = 0; i < cur_gates_sz; ++i)
-- 
2.43.0

