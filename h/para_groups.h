// Schedules of the multi-threaded prover.
struct Trace { std::vector<F> said, outs; bool ok = false; };
static Trace traced(const Pt &p, const sched::Plan &pl, bool rec = false) {
  sched_plan = pl; sched_rec = rec; Trace t; t.ok = run(p, Adv()); t.said = S.said; t.outs = S.outs; sched_plan = sched::Plan(); sched_rec = false;
  vf::count(10, sched::pass_no); vf::count(11, sched::bodies); sched::bodies = 0; vf::count(13);
  return t;
}
static std::string plan_text(const sched::Plan &q) {
  static const char *st[] = {"at the first join", "at its fork", "at its own join"};
  std::string s = vf::fmt("each body started %s, order #%d", st[q.start], q.perm);
  if (q.pass >= 0) s += vf::fmt(" in pass %ld only", q.pass);
  if (q.k) s += vf::fmt(", first body suspended at its contended access #%ld", q.k); if (q.j) s += vf::fmt(", second at its #%ld", q.j);
  return s;
}
static void same(const Trace &a, const Trace &b, const sched::Plan &q) {
  vf::count(0);
  if (a.ok && !b.ok) vf::fail("the honest proof is accepted in one schedule and rejected in another: " + plan_text(q));
  if (a.outs != b.outs) vf::fail("the outputs depend on the schedule: " + plan_text(q));
  if (a.said != b.said) { size_t i = 0; while (i < a.said.size() && i < b.said.size() && a.said[i] == b.said[i]) i++; vf::fail(vf::fmt("message #%zu of the prover depends on the schedule: ", i) + plan_text(q)); }
}
// every circuit: all orders in every pass, the three starting times, and (by the contended addresses of the recorded run)
// every interleaving with up to two suspensions
static void schedules(const Pt &p, bool each_pass) {
  sched::Plan base; Trace a = traced(p, base, true);
  if (!a.ok) vf::fail("the verifier rejects the honest prover");
  long np = sched::pass_no;
  auto hot = sched::contended; long nh = 0; for (auto &h : hot) nh += (long)h.size(); vf::count(12, nh);
#ifdef SCHED_TSAN
  vf::count(14, sched::accesses); sched::accesses = 0;
#endif
  for (int st = 0; st < 3; st++) for (int pm = 0; pm < (st == 0 ? 24 : 1); pm++) { if (!st && !pm) continue; sched::Plan q; q.start = st; q.perm = pm; same(a, traced(p, q), q); }
  if (each_pass) for (long k = 0; k < np; k++) for (int pm = 1; pm < 24; pm++) { sched::Plan q; q.perm = pm; q.pass = k; same(a, traced(p, q), q); }
  // interleavings of every ordered pair of bodies (of the first four): the first suspended at its k-th contended access, the second
  // run to its end or suspended at its j-th, the first finished.  Counter 15: circuits whose interleavings exceed the budget.
  long budget = vf::thorough() ? 4000 : 240; bool cut = false; static long total = 0; const long most = vf::thorough() ? 400000 : 60000;
  for (long k = 0; k < (long)hot.size() && !cut; k++) if (!hot[k].empty()) {
    sched::contended = hot; sched::Plan q; q.pass = k;
    for (long lvl = 0; lvl < 2 && !cut; lvl++)
      for (q.perm = 0; q.perm < 24 && !cut; q.perm += 2) for (q.k = 1; q.k <= (lvl ? 24 : 200) && !cut; q.k++) {
        bool reached = false;
        for (q.j = lvl; q.j <= (lvl ? 24 : 0) && !cut; q.j++) {
          if (--budget < 0 || ++total > most) { cut = true; vf::count(15); break; }
          sched::contended = hot; sched::switches = 0; Trace t = traced(p, q); long n = sched::switches; same(a, t, q); reached |= n > 0; if (n < 1 + q.j) break;
        }
        if (!reached) break;
      }
  }
}
static void visit_schedules(const Pt &p, bool each) { vf::visit([&] { return "schedules of: " + ctext(p); }, [&] { schedules(p, each); }); }
VF_GROUP(sched_shapes, "qt") { all_shapes(vf::thorough() ? 4 : 3, {2, 4, 8, 16}, vf::thorough() ? 3 : 1, [](const Circ &c) { Pt p; p.c = c; p.t.id = 51; if (c.size() > 1) visit_schedules(p, true); }); }
VF_GROUP(sched_reps, "qt") { for (auto &c : rep_circuits()) { Pt p; p.c = c; p.t.id = 52; visit_schedules(p, true); } }
// every gate and wiring at every position
VF_GROUP(sched_one_gate, "qt") { all_one_gate(vf::thorough() ? std::vector<int>{4, 8, 16} : std::vector<int>{4, 8}, [](const Circ &c) { Pt p; p.c = c; p.t.id = 53; visit_schedules(p, false); }); }
VF_GROUP(sched_large, "qt") { all_large(5, vf::thorough() ? 9 : 7, [](const Circ &c) { Pt p; p.c = c; p.t.id = 54; visit_schedules(p, false); }); }
