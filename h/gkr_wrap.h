// The class the verifier and the programs get as their prover: the real one, with every message
// passing through the harness (bodies in gkr.cpp).  Forced into their translation units by -include.
#pragma once
#include <bits/stdc++.h>
#define prover real_prover
#if PROTO == 1
#include "linear_gkr/prover_fast_track.h"
#elif PROTO == 2
#include "traditional_gkr/prover_clogc.h"
#elif PROTO == 4
#include "linear_gkr/prover_fast_para_track.h"
#else
#include "traditional_gkr/prover_bc_clogc.h"
#endif
#undef prover
class prover : public real_prover {
  typedef prime_field::field_element FE;
public:
  FE *evaluate();
#if PROTO == 3
  FE V_res(const FE *omr, const FE *r, const FE *omrb, const FE *rb, const FE *out, int nr, int nrb, int n);
  void sumcheck_init(int layer, int lb, int lg, int lu, int lv, const FE &al, const FE &be, const FE *rb0, const FE *r0, const FE *r1, FE *ob, FE *o0, FE *o1);
  cubic_poly sumcheck_phase0_update(FE prev, int j);
  void sumcheck_phase1_init(FE prev);
  void sumcheck_phase2_init(FE prev);
#else
  FE V_res(const FE *omr, const FE *r, const FE *out, int nr, int n);
  void sumcheck_init(int layer, int lg, int lu, int lv, const FE &al, const FE &be, const FE *r0, const FE *r1, FE *o0, FE *o1);
  void sumcheck_phase2_init(FE prev, const FE *ru, const FE *omru);
#endif
  quadratic_poly sumcheck_phase1_update(FE prev, int j);
  quadratic_poly sumcheck_phase2_update(FE prev, int j);
  std::pair<FE, FE> sumcheck_finalize(FE prev);
};
