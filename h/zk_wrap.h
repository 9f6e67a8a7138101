// What the ZK verifier and program get as their prover and transcript: the real ones, with every
// message and every challenge passing through the harness (bodies in zk.cpp).  Forced into their
// translation units by -include.
#pragma once
#include <bits/stdc++.h>
#define zk_prover real_zk_prover
#include "linear_gkr/zk_prover.h"
#undef zk_prover
#define proof_transcript real_proof_transcript
#include "linear_gkr/transcript.h"
#undef proof_transcript
class zk_prover : public real_zk_prover {
  typedef prime_field::field_element FE;
  typedef std::vector<bn::Ec1> VE;
public:
  FE *evaluate();
  FE V_res(const FE *omr, const FE *r, const FE *out, int nr, int n);
  std::pair<VE, VE> keygen_and_commit(int n, double &t);
  VE sumcheck_init(int layer, int lg, int lu, int lv, const FE &al, const FE &be, const FE *r0, const FE *r1, FE *o0, FE *o1);
  VE generate_maskpoly_pre_rho(int length, int degree);
  void generate_maskpoly_after_rho(int length, int degree);
  void sumcheck_phase1_init();
  quadratic_poly sumcheck_phase1_update(FE prev, int j);
  quintuple_poly sumcheck_phase1_updatelastbit(FE prev, int j);
  void sumcheck_phase2_init(FE prev, const FE *ru, const FE *omru);
  quadratic_poly sumcheck_phase2_update(FE prev, int j);
  quintuple_poly sumcheck_phase2_updatelastbit(FE prev, int j);
  std::pair<FE, FE> sumcheck_finalize(FE prev);
  quadratic_poly sumcheck_finalround(FE prev, int current, FE general);
  std::pair<VE, VE> prove_R(std::vector<mpz_class> R, mpz_class &ans);
  std::pair<VE, VE> prove_mask(std::vector<mpz_class> R, mpz_class &ans);
  std::pair<VE, VE> prove_input(std::vector<mpz_class> R, mpz_class &ans, mpz_class Z);
};
class proof_transcript : public real_proof_transcript {
public:
  prime_field::field_element *random(int size);
  prime_field::field_element random();
};
