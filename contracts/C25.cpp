// C25: destroying a dependent leaves nothing behind that could call it. Between two siblings on the same inputs a
// dependent is built; an input may change or be replaced; the dependent is destroyed; then every object it ever
// depended on changes and is replaced. Every access to a destroyed object is a violation, and the siblings hear
// of each event that concerns them and go on reading what newly built objects would.
#include "live.h"
#include <type_traits>
typedef std::shared_ptr<DeterministicFn> Fnp;
typedef std::shared_ptr<ProbabilisticFn> Pr;
typedef std::shared_ptr<IM> Imp;
typedef std::shared_ptr<EDP> Ep;
typedef std::shared_ptr<FragilityFn> Fr;
typedef std::shared_ptr<LossFn> Lo;
typedef std::shared_ptr<CompGroup> Gp;
static LogNormalDist one() { return dist(0.5, 0.4); }
static Fnp new_fn() { return std::make_shared<Dial>("n", 0, 10); }
static Pr new_pr() { return DIAL_RESPONSE("n"); }
static Imp new_im() { return std::make_shared<IM>(std::make_shared<Dial>("ni", 0, 10)); }
static Fr new_frag() { std::vector<LogNormalDist> d; d.push_back(one()); return std::make_shared<FragilityFn>(d); }
static Lo new_loss() { return LOSS("n"); }
// an object depended on, as it was and as it is after replacements
template<class T> struct In {
  std::vector<std::shared_ptr<T> > all; std::shared_ptr<T> spare[3]; size_t used;
  In(std::shared_ptr<T> f, std::shared_ptr<T> a, std::shared_ptr<T> b, std::shared_ptr<T> c) : used(0) { all.push_back(f); spare[0] = a; spare[1] = b; spare[2] = c; }
  std::shared_ptr<T> now() { return all.back(); }
  void change() { now()->notify_change(); }
  void replace() { std::shared_ptr<T> n = spare[used++]; now()->replace(n); all.push_back(n); }
  void stale() { for (size_t i = 0; i + 1 < all.size(); i++) { all[i]->notify_change(); all[i]->replace(now()); } }
};
#define IN(T, f, mk) In<T>(f, mk(), mk(), mk())
struct Sibs {
  Heard a, b; int n;
  Sibs() : n(0) {}
  void told(int times) { n += times; vc_check("first-sibling-told", a.changed >= n); vc_check("second-sibling-told", b.changed >= n); }
};
template<class T> static void before(In<T> &in, int prefix) {
  if (prefix == 1) in.change();
  if (prefix >= 2) in.replace();
  if (prefix == 3) in.replace();
}
template<class T> static void after(In<T> &in, Sibs &s) {
  s.a.changed = s.b.changed = s.n = 0;
  in.change(); s.told(1);
  in.replace(); s.told(1);
  in.change(); s.told(1);
  in.stale();
}
// ---------------------------------------------------------------- probabilistic curves
static ProbabilisticFn *mk_plain(Fnp m, Fnp s) { return new DialResponseOn(m, s); }
static ProbabilisticFn *mk_lognormal(Fnp m, Fnp s) { return new LogNormalFn(m, LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X); }
static void del(ProbabilisticFn *d) { if (LogNormalFn *l = dynamic_cast<LogNormalFn *>(d)) delete l; else delete static_cast<DialResponseOn *>(d); }
static void curve(ProbabilisticFn *(*mk)(Fnp, Fnp), int which, int prefix) {
  In<DeterministicFn> m = IN(DeterministicFn, new_fn(), new_fn), s = IN(DeterministicFn, new_fn(), new_fn);
  bool same = which == 2;
  Pr a(mk(m.now(), same ? m.now() : s.now())); ProbabilisticFn *d = mk(m.now(), same ? m.now() : s.now()); Pr b(mk(m.now(), same ? m.now() : s.now()));
  Sibs t; t.a.on(a); t.b.on(b);
  if (which != 1) before(m, prefix); else before(s, prefix);
  vc_cover("start");
  del(d);
  after(m, t); if (!same) after(s, t);
}
#define CURVE(k) \
  VC_HARNESS(C25, k##_mu) { curve(mk_##k, 0, 0); } VC_HARNESS(C25, k##_mu_changed) { curve(mk_##k, 0, 1); } \
  VC_HARNESS(C25, k##_mu_replaced) { curve(mk_##k, 0, 2); } VC_HARNESS(C25, k##_mu_replaced_twice) { curve(mk_##k, 0, 3); } \
  VC_HARNESS(C25, k##_sigma_changed) { curve(mk_##k, 1, 1); } VC_HARNESS(C25, k##_sigma_replaced) { curve(mk_##k, 1, 2); } \
  VC_HARNESS(C25, k##_sigma_replaced_twice) { curve(mk_##k, 1, 3); } \
  VC_HARNESS(C25, k##_one_curve) { curve(mk_##k, 2, 0); } VC_HARNESS(C25, k##_one_curve_replaced) { curve(mk_##k, 2, 2); }
CURVE(plain)
CURVE(lognormal)
// ---------------------------------------------------------------- intensity
static void intensity(int prefix) {
  In<DeterministicFn> h = IN(DeterministicFn, new_fn(), new_fn);
  Imp a = std::make_shared<IM>(h.now()); IM *d = new IM(h.now()); Imp b = std::make_shared<IM>(h.now());
  Sibs t; t.a.on(a); t.b.on(b);
  if (prefix == 4) { d->SetCollapse(one()); d->SetDemolition(one()); }
  remember([&]() { a->CollapseRate(); d->CollapseRate(); d->DemolitionRate(); });
  before(h, prefix > 3 ? 0 : prefix);
  vc_cover("start");
  delete d;
  after(h, t);
  double x = vc_real_in("x", 0, 10);
  vc_check_eq("rate-first", a->lambda(x), h.now()->ValueAt(x));
  vc_check_eq("rate-second", b->lambda(x), h.now()->ValueAt(x));
}
VC_HARNESS(C25, intensity) { intensity(0); }
VC_HARNESS(C25, intensity_changed) { intensity(1); }
VC_HARNESS(C25, intensity_replaced) { intensity(2); }
VC_HARNESS(C25, intensity_replaced_twice) { intensity(3); }
VC_HARNESS(C25, intensity_fates) { intensity(4); }
// ---------------------------------------------------------------- demand
static void demand(int which, int prefix) {
  In<IM> m = IN(IM, new_im(), new_im); In<ProbabilisticFn> r = IN(ProbabilisticFn, new_pr(), new_pr);
  Ep a = std::make_shared<EDP>(m.now(), r.now()); EDP *d = new EDP(m.now(), r.now()); Ep b = std::make_shared<EDP>(m.now(), r.now());
  Sibs t; t.a.on(a); t.b.on(b);
  if (which == 0) before(m, prefix); else before(r, prefix);
  vc_cover("start");
  delete d;
  after(m, t); after(r, t);
  double x = vc_real_in("x", 0, 10);
  vc_check_eq("mean-first", a->Mean(x), r.now()->Mean(x));
  vc_check_eq("mean-second", b->Mean(x), r.now()->Mean(x));
  vc_check("intensity-first", a->Base_Rate() == m.now()); vc_check("intensity-second", b->Base_Rate() == m.now());
}
VC_HARNESS(C25, demand) { demand(0, 0); }
VC_HARNESS(C25, demand_intensity_changed) { demand(0, 1); }
VC_HARNESS(C25, demand_intensity_replaced) { demand(0, 2); }
VC_HARNESS(C25, demand_intensity_replaced_twice) { demand(0, 3); }
VC_HARNESS(C25, demand_response_changed) { demand(1, 1); }
VC_HARNESS(C25, demand_response_replaced) { demand(1, 2); }
VC_HARNESS(C25, demand_response_replaced_twice) { demand(1, 3); }
// ---------------------------------------------------------------- compound demand
static void compound(int which, int prefix, bool same, bool as_base) {
  In<IM> m = IN(IM, new_im(), new_im); In<ProbabilisticFn> r = IN(ProbabilisticFn, new_pr(), new_pr), q = IN(ProbabilisticFn, new_pr(), new_pr);
  Pr s = same ? r.now() : q.now();
  Ep a = std::make_shared<CompoundEDP>(m.now(), r.now(), s); CompoundEDP *d = new CompoundEDP(m.now(), r.now(), s); Ep b = std::make_shared<CompoundEDP>(m.now(), r.now(), s);
  Sibs t; t.a.on(a); t.b.on(b);
  if (which == 0) before(m, prefix); else if (which == 1) before(r, prefix); else before(q, prefix);
  vc_cover("start");
  if (as_base) delete static_cast<EDP *>(d); else delete d;
  after(m, t); after(r, t); if (!same) after(q, t);
}
VC_HARNESS(C25, compound) { compound(0, 0, false, false); }
VC_HARNESS(C25, compound_through_base) { compound(0, 0, false, true); }
VC_HARNESS(C25, compound_intensity_replaced) { compound(0, 2, false, false); }
VC_HARNESS(C25, compound_first_changed) { compound(1, 1, false, false); }
VC_HARNESS(C25, compound_first_replaced) { compound(1, 2, false, false); }
VC_HARNESS(C25, compound_first_replaced_twice) { compound(1, 3, false, true); }
VC_HARNESS(C25, compound_second_changed) { compound(2, 1, false, false); }
VC_HARNESS(C25, compound_second_replaced) { compound(2, 2, false, false); }
VC_HARNESS(C25, compound_second_replaced_twice) { compound(2, 3, false, true); }
VC_HARNESS(C25, compound_one_response) { compound(1, 0, true, false); }
VC_HARNESS(C25, compound_one_response_replaced) { compound(1, 2, true, false); }
// ---------------------------------------------------------------- component group
static Ep new_edp_on(Imp m) { return std::make_shared<EDP>(m, new_pr()); }
static void group(int which, int prefix, bool same, bool cost, bool delay) {
  Imp m = new_im();
  In<EDP> e(new_edp_on(m), new_edp_on(m), new_edp_on(m), new_edp_on(m)); In<FragilityFn> f = IN(FragilityFn, new_frag(), new_frag);
  In<LossFn> c = IN(LossFn, new_loss(), new_loss), l = IN(LossFn, new_loss(), new_loss);
  Lo c0 = cost ? c.now() : Lo(), l0 = !delay ? Lo() : same ? c.now() : l.now();
  Gp a = std::make_shared<CompGroup>(e.now(), f.now(), c0, l0, 1, 1.0, 1.0);
  CompGroup *d = new CompGroup(e.now(), f.now(), c0, l0, 1, 1.0, 1.0);
  Gp b = std::make_shared<CompGroup>(e.now(), f.now(), c0, l0, 1, 1.0, 1.0);
  Sibs t; t.a.on(a); t.b.on(b);
  if (which == 0) before(e, prefix); else if (which == 1) before(f, prefix); else if (which == 2) before(c, prefix); else before(l, prefix);
  vc_cover("start");
  delete d;
  after(e, t); after(f, t); if (cost) after(c, t); if (delay && !same) after(l, t);
}
VC_HARNESS(C25, group) { group(0, 0, false, true, true); }
VC_HARNESS(C25, group_demand_changed) { group(0, 1, false, true, true); }
VC_HARNESS(C25, group_demand_replaced) { group(0, 2, false, true, true); }
VC_HARNESS(C25, group_demand_replaced_twice) { group(0, 3, false, true, true); }
VC_HARNESS(C25, group_fragility_changed) { group(1, 1, false, true, true); }
VC_HARNESS(C25, group_fragility_replaced) { group(1, 2, false, true, true); }
VC_HARNESS(C25, group_fragility_replaced_twice) { group(1, 3, false, true, true); }
VC_HARNESS(C25, group_cost_changed) { group(2, 1, false, true, true); }
VC_HARNESS(C25, group_cost_replaced) { group(2, 2, false, true, true); }
VC_HARNESS(C25, group_cost_replaced_twice) { group(2, 3, false, true, true); }
VC_HARNESS(C25, group_delay_changed) { group(3, 1, false, true, true); }
VC_HARNESS(C25, group_delay_replaced) { group(3, 2, false, true, true); }
VC_HARNESS(C25, group_delay_replaced_twice) { group(3, 3, false, true, true); }
VC_HARNESS(C25, group_cost_only) { group(2, 2, false, true, false); }
VC_HARNESS(C25, group_delay_only) { group(3, 2, false, false, true); }
VC_HARNESS(C25, group_no_losses) { group(0, 2, false, false, false); }
VC_HARNESS(C25, group_one_loss) { group(2, 0, true, true, true); }
VC_HARNESS(C25, group_one_loss_replaced) { group(2, 2, true, true, true); }
// ---------------------------------------------------------------- structure
static Gp new_group_on(Imp m) { return std::make_shared<CompGroup>(new_edp_on(m), new_frag(), new_loss(), Lo(), 1, 1.0, 1.0); }
static void fill(Structure *s, Imp m, In<CompGroup> &g, In<CompGroup> &h) {
  s->setRebuildCost(one()); s->setDemolitionCost(one()); s->AddCompGroup(g.now()); s->AddCompGroup(h.now());
}
static void same_annual(Structure *s, In<CompGroup> &g, In<CompGroup> *h) {
  Structure f("fresh"); f.setRebuildCost(one()); f.setDemolitionCost(one()); f.AddCompGroup(g.now()); if (h) f.AddCompGroup(h->now());
  vc_check_eq("annual-cost", s->AnnualCost().get_mean_X(), f.AnnualCost().get_mean_X());
}
// how: 0 destroy, 1 take the first group out, 2 take it out and destroy, 3 take both out and destroy
static void structure(int which, int prefix, int how) {
  vc_note("smooth");
  Imp m = new_im();
  In<CompGroup> g(new_group_on(m), new_group_on(m), new_group_on(m), new_group_on(m)), h(new_group_on(m), new_group_on(m), new_group_on(m), new_group_on(m));
  Structure *a = new Structure("a"), *d = new Structure("d"), *b = new Structure("b");
  fill(a, m, g, h); fill(d, m, g, h); fill(b, m, g, h);
  if (which == 0) before(g, prefix); else if (which == 1) before(h, prefix); else if (prefix == 1) m->notify_change();
  vc_cover("start");
  if (how >= 1) d->RemoveCompGroup(g.now());
  if (how >= 3) d->RemoveCompGroup(h.now());
  if (how != 1) delete d;
  for (int round = 0; round < 3; round++) {
    remember([&]() { a->AnnualCost(); b->AnnualCost(); if (how == 1) d->AnnualCost(); });
    if (round == 0) { g.change(); g.replace(); g.change(); g.stale(); }
    if (round == 1) { h.change(); h.replace(); h.change(); h.stale(); }
    if (round == 2) m->notify_change();
    same_annual(a, g, &h); same_annual(b, g, &h);
    if (how == 1) same_annual(d, h, 0);
  }
  std::vector<Gp> v = a->Components(); vc_check("members-first", v.size() == 2 && v[0] == g.now() && v[1] == h.now());
  std::vector<Gp> w = b->Components(); vc_check("members-second", w.size() == 2 && w[0] == g.now() && w[1] == h.now());
  if (how == 1) { std::vector<Gp> u = d->Components(); vc_check("members-left", u.size() == 1 && u[0] == h.now()); delete d; }
  delete a;
  g.change(); h.change(); m->notify_change();
  delete b;
  g.change(); h.change(); m->notify_change();
}
VC_HARNESS(C25, structure) { structure(0, 0, 0); }
VC_HARNESS(C25, structure_group_changed) { structure(0, 1, 0); }
VC_HARNESS(C25, structure_group_replaced) { structure(0, 2, 0); }
VC_HARNESS(C25, structure_second_replaced_twice) { structure(1, 3, 0); }
VC_HARNESS(C25, structure_intensity_changed) { structure(2, 1, 0); }
VC_HARNESS(C25, structure_member_removed) { structure(0, 0, 1); }
VC_HARNESS(C25, structure_member_removed_replaced) { structure(0, 2, 1); }
VC_HARNESS(C25, structure_member_removed_then_destroyed) { structure(1, 2, 2); }
VC_HARNESS(C25, structure_emptied_then_destroyed) { structure(0, 0, 3); }
VC_HARNESS(C25, structure_empty) { Structure *s = new Structure("none"); vc_cover("start"); delete s; vc_check("done", true); }
VC_HARNESS(C25, structure_intensity_replaced) {
  Imp m = new_im(), n = new_im(); Gp g = new_group_on(m);
  Structure *a = new Structure("a"), *d = new Structure("d"); a->AddCompGroup(g); d->AddCompGroup(g);
  vc_cover("start");
  m->replace(n); delete d;
  m->notify_change(); n->notify_change(); n->replace(m); n->notify_change(); m->notify_change();
  vc_check("done", true);
}
