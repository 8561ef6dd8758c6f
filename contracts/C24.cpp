// C24: reads after a change equal what newly built objects report. Every dependent object is built over
// arbitrary inputs, its caches are filled, one input changes or is replaced (twice), and every read is compared
// with a new object's over the inputs then current. A dependent also tells its own listeners, so that the
// argument carries over chains of any length.
#include "live.h"
typedef std::shared_ptr<DeterministicFn> Fnp;
typedef std::shared_ptr<ProbabilisticFn> Pr;
#define X vc_real_in("x", 0, 10)
// ---------------------------------------------------------------- intensity
struct Im {
  Fnp h; bool c, d; LogNormalDist col, dem;
  std::shared_ptr<IM> im;
  Im() : c(false), d(false) { h = std::make_shared<Dial>("h", 0, 10); }
  void build() { im = std::make_shared<IM>(h); if (c) im->SetCollapse(col); if (d) im->SetDemolition(dem); }
  std::shared_ptr<IM> fresh() { Im f(*this); f.build(); return f.im; }
};
static void read(std::shared_ptr<IM> m) { double x = X; m->lambda(x); m->CollapseRate(); m->DemolitionRate(); m->DerivativeAt(x); }
static void same(std::shared_ptr<IM> a, std::shared_ptr<IM> b) {
  double x = X;
  vc_check_eq("rate", a->lambda(x), b->lambda(x));
  vc_check_eq("slope", a->DerivativeAt(x), b->DerivativeAt(x));
  vc_check_eq("p-collapse", a->pCollapse(x), b->pCollapse(x));
  vc_check_eq("p-demolition", a->pDemolition(x), b->pDemolition(x));
  vc_check_eq("p-repair", a->pRepair(x), b->pRepair(x));
  vc_check_eq("collapse-rate", a->CollapseRate(), b->CollapseRate());
  vc_check_eq("demolition-rate", a->DemolitionRate(), b->DemolitionRate());
}
static LogNormalDist fate(const char *m, const char *s) { return dist(vc_real_in(m, -2, 2), vc_real_in(s, 0.05, 2)); }
static void im_change(Im &s, int k, int round) {
  if (k == 0) std::static_pointer_cast<Dial>(s.h)->turn(round ? "h2" : "h1");
  if (k == 1) { Fnp n = std::make_shared<Dial>(round ? "h2" : "h1", 0, 10); s.h->replace(n); s.h = n; }
  if (k == 2) { s.c = true; s.col = round ? fate("c2m", "c2s") : fate("c1m", "c1s"); s.im->SetCollapse(s.col); }
  if (k == 3) { s.d = true; s.dem = round ? fate("d2m", "d2s") : fate("d1m", "d1s"); s.im->SetDemolition(s.dem); }
  if (k == 4) { s.c = true; s.col = round ? fate("c2m", "c2s") : fate("c1m", "c1s"); s.im->SetCollapse(std::make_shared<LogNormalDist>(s.col)); }
  if (k == 5) { s.d = true; s.dem = round ? fate("d2m", "d2s") : fate("d1m", "d1s"); s.im->SetDemolition(std::make_shared<LogNormalDist>(s.dem)); }
}
static void im_case(int first, int second) {
  vc_note("smooth");
  Im s; 
  s.c = vc_bool("collapse"); s.d = vc_bool("demolition"); s.col = fate("cm", "cs"); s.dem = fate("dm", "ds");
  s.build();
  Heard l; l.on(s.im);
  remember([&]() { read(s.im); });
  vc_cover("start");
  im_change(s, first, 0);
  vc_check("told", l.changed >= 1);
  same(s.im, s.fresh());
  remember([&]() { read(s.im); });
  l.changed = 0;
  im_change(s, second, 1);
  vc_check("told-again", l.changed >= 1);
  same(s.im, s.fresh());
}
VC_HARNESS(C24, im_hazard_changed) { im_case(0, 0); }
VC_HARNESS(C24, im_hazard_replaced) { im_case(1, 1); }
VC_HARNESS(C24, im_hazard_replaced_changed) { im_case(1, 0); }
VC_HARNESS(C24, im_collapse) { im_case(2, 2); }
VC_HARNESS(C24, im_demolition) { im_case(3, 3); }
VC_HARNESS(C24, im_collapse_shared) { im_case(4, 4); }
VC_HARNESS(C24, im_demolition_shared) { im_case(5, 5); }
// ---------------------------------------------------------------- response relationship
template<LogNormalFn::M_TYPE MT, LogNormalFn::S_TYPE ST> static void rel_case(bool loc, bool rep, bool rep2) {
  vc_note("smooth");
  Fnp m = std::make_shared<Dial>("m", 0, 1), s = std::make_shared<Dial>("s", 0, 1);
  std::shared_ptr<LogNormalFn> f = std::make_shared<LogNormalFn>(m, MT, s, ST);
  Heard l; l.on(Pr(f));
  vc_cover("start");
  double x = X, y = vc_real_in("y", 0, 10), p = vc_real_in("p", 0, 1);
  for (int r = 0; r < 2; r++) {
    Fnp &c = loc ? m : s;
    if (r ? rep2 : rep) { Fnp n = std::make_shared<Dial>(r ? "n2" : "n1", 0, 1); c->replace(n); c = n; }
    else std::static_pointer_cast<Dial>(c)->turn(r ? "n2" : "n1");
    vc_check("told", l.changed == r + 1);
    LogNormalFn g(m, MT, s, ST);
    vc_check_eq("p-exceedence", f->P_exceedence(x, y), g.P_exceedence(x, y));
    vc_check_eq("x-at-exceedence", f->X_at_exceedence(x, p), g.X_at_exceedence(x, p));
    vc_check_eq("mean", f->Mean(x), g.Mean(x));
    vc_check_eq("mean-ln", f->MeanLn(x), g.MeanLn(x));
    vc_check_eq("median", f->Median(x), g.Median(x));
    vc_check_eq("sd-ln", f->SD_ln(x), g.SD_ln(x));
    vc_check_eq("sd", f->SD(x), g.SD(x));
  }
}
#define REL(n, M, S) \
  VC_HARNESS(C24, rel_##n##_location) { rel_case<LogNormalFn::M, LogNormalFn::S>(true, vc_bool("replace"), vc_bool("replace-again")); } \
  VC_HARNESS(C24, rel_##n##_spread) { rel_case<LogNormalFn::M, LogNormalFn::S>(false, vc_bool("replace"), vc_bool("replace-again")); }
REL(mean_ln, MEAN_LN_X, SIGMA_LN_X)
REL(median, MEDIAN_X, SIGMA_LN_X)
REL(mean, MEAN_X, SIGMA_X)
// ---------------------------------------------------------------- demand
struct Dm {
  std::shared_ptr<IM> im; Pr r, r2; bool both;
  std::shared_ptr<EDP> edp;
  Dm(bool b) : both(b) { im = std::make_shared<IM>(std::make_shared<Dial>("h", 0, 10)); r = DIAL_RESPONSE("r"); r2 = DIAL_RESPONSE("q"); }
  std::shared_ptr<EDP> fresh() { std::shared_ptr<EDP> e; if (both) e = std::make_shared<CompoundEDP>(im, r, r2); else e = std::make_shared<EDP>(im, r); return e; }
};
static void same(std::shared_ptr<EDP> a, std::shared_ptr<EDP> b) {
  double x = X, y = vc_real_in("y", 0, 10), p = vc_real_in("p", 0, 1);
  vc_check_eq("rate", a->lambda(y), b->lambda(y));
  vc_check_eq("p-exceedence", a->P_exceedence(x, y), b->P_exceedence(x, y));
  vc_check_eq("x-at-exceedence", a->X_at_exceedence(x, p), b->X_at_exceedence(x, p));
  vc_check_eq("mean", a->Mean(x), b->Mean(x));
  vc_check_eq("mean-ln", a->MeanLn(x), b->MeanLn(x));
  vc_check_eq("median", a->Median(x), b->Median(x));
  vc_check_eq("sd-ln", a->SD_ln(x), b->SD_ln(x));
  vc_check_eq("sd", a->SD(x), b->SD(x));
  vc_check("intensity", a->Base_Rate() == b->Base_Rate());
}
#define TURNP(r, t) TURN(std::static_pointer_cast<DialResponse>(r), t)
static void dm_change(Dm &s, int k, int round) {
  if (k == 0) { s.im->SetCollapse(round ? fate("c2m", "c2s") : fate("c1m", "c1s")); }
  if (k == 1) { std::shared_ptr<IM> n = std::make_shared<IM>(round ? std::make_shared<Dial>("h2", 0, 10) : std::make_shared<Dial>("h1", 0, 10)); s.im->replace(n); s.im = n; }
  if (k == 2) { if (round) TURNP(s.r, "r2"); else TURNP(s.r, "r1"); }
  if (k == 3) { Pr n = round ? DIAL_RESPONSE("r2") : DIAL_RESPONSE("r1"); s.r->replace(n); s.r = n; }
  if (k == 4) { if (round) TURNP(s.r2, "q2"); else TURNP(s.r2, "q1"); }
  if (k == 5) { Pr n = round ? DIAL_RESPONSE("q2") : DIAL_RESPONSE("q1"); s.r2->replace(n); s.r2 = n; }
}
static void dm_case(bool both, int first, int second) {
  vc_note("smooth");
  Dm s(both); s.edp = s.fresh();
  Heard l; l.on(s.edp);
  remember([&]() { s.edp->lambda(vc_real_in("y", 0, 10)); });
  vc_cover("start");
  dm_change(s, first, 0);
  vc_check("told", l.changed >= 1);
  same(s.edp, s.fresh());
  remember([&]() { s.edp->lambda(vc_real_in("y", 0, 10)); });
  l.changed = 0;
  dm_change(s, second, 1);
  vc_check("told-again", l.changed >= 1);
  same(s.edp, s.fresh());
}
VC_HARNESS(C24, edp_intensity_changed) { dm_case(false, 0, 0); }
VC_HARNESS(C24, edp_intensity_replaced) { dm_case(false, 1, 1); }
VC_HARNESS(C24, edp_intensity_replaced_changed) { dm_case(false, 1, 0); }
VC_HARNESS(C24, edp_response_changed) { dm_case(false, 2, 2); }
VC_HARNESS(C24, edp_response_replaced) { dm_case(false, 3, 3); }
VC_HARNESS(C24, edp_response_replaced_changed) { dm_case(false, 3, 2); }
VC_HARNESS(C24, compound_intensity_changed) { dm_case(true, 0, 0); }
VC_HARNESS(C24, compound_intensity_replaced) { dm_case(true, 1, 1); }
VC_HARNESS(C24, compound_first_changed) { dm_case(true, 2, 2); }
VC_HARNESS(C24, compound_first_replaced) { dm_case(true, 3, 3); }
VC_HARNESS(C24, compound_first_replaced_changed) { dm_case(true, 3, 2); }
VC_HARNESS(C24, compound_second_changed) { dm_case(true, 4, 4); }
VC_HARNESS(C24, compound_second_replaced) { dm_case(true, 5, 5); }
VC_HARNESS(C24, compound_second_replaced_changed) { dm_case(true, 5, 4); }
VC_HARNESS(C24, compound_both) { dm_case(true, 5, 2); }
// ---------------------------------------------------------------- component group
struct Cg {
  std::shared_ptr<IM> im; std::shared_ptr<EDP> edp; std::shared_ptr<FragilityFn> fr, spare[2]; std::shared_ptr<LossFn> cost, delay;
  std::shared_ptr<CompGroup> cg; Pr r; int n; double fc, fd;
  Cg() {
    im = std::make_shared<IM>(std::make_shared<Dial>("h", 0, 10)); r = DIAL_RESPONSE("r"); edp = std::make_shared<EDP>(im, r);
    fr = FRAG("f"); spare[0] = FRAG("f1"); spare[1] = FRAG("f2"); cost = LOSS("c"); delay = LOSS("d"); n = vc_int("count", 1, 1000); fc = vc_real_in("fc", 0, 10); fd = vc_real_in("fd", 0, 10);
  }
  std::shared_ptr<CompGroup> fresh() { return std::make_shared<CompGroup>(edp, fr, cost, delay, n, fc, fd); }
};
typedef std::shared_ptr<CompGroup> Gp;
#define Y vc_real_in("y", 0, 10)
static void read(Gp g) {
  double x = X, y = Y;
  g->E_cost_EDP(y); g->E_delay_EDP(y); g->E_cost_IM(x); g->SD_ln_cost_IM(x); g->E_delay_IM(x); g->SD_ln_delay_IM(x); g->E_annual_cost(); g->lambda_cost(y); g->Rate();
}
static void same_edp(Gp a, Gp b) {
  double y = Y;
  vc_check_eq("mean-cost-at-demand", a->E_cost_EDP(y), b->E_cost_EDP(y));
  vc_check_eq("mean-ln-cost-at-demand", a->mean_ln_cost_EDP(y), b->mean_ln_cost_EDP(y));
  vc_check_eq("sd-ln-cost-at-demand", a->SD_ln_cost_EDP(y), b->SD_ln_cost_EDP(y));
  vc_check_eq("sd-cost-at-demand", a->SD_cost_EDP(y), b->SD_cost_EDP(y));
  vc_check_eq("mean-delay-at-demand", a->E_delay_EDP(y), b->E_delay_EDP(y));
  vc_check_eq("sd-ln-delay-at-demand", a->SD_ln_delay_EDP(y), b->SD_ln_delay_EDP(y));
  vc_check_eq("sd-delay-at-demand", a->SD_delay_EDP(y), b->SD_delay_EDP(y));
  vc_check("parts", a->FragFn() == b->FragFn() && a->get_EDP() == b->get_EDP() && a->CostFn() == b->CostFn() && a->DelayFn() == b->DelayFn() && a->getIM() == b->getIM());
}
static void same_im(Gp a, Gp b) {
  double x = X, y = Y;
  vc_check_eq("mean-cost", a->E_cost_IM(x), b->E_cost_IM(x));
  vc_check_eq("sd-ln-cost", a->SD_ln_cost_IM(x), b->SD_ln_cost_IM(x));
  vc_check_eq("mean-delay", a->E_delay_IM(x), b->E_delay_IM(x));
  vc_check_eq("sd-ln-delay", a->SD_ln_delay_IM(x), b->SD_ln_delay_IM(x));
  LogNormalDist c = a->CostDist_IM(x), d = b->CostDist_IM(x);
  vc_check_eq("cost-mean", c.get_mean_X(), d.get_mean_X());
  vc_check_eq("cost-sd", c.get_sigma_lnX(), d.get_sigma_lnX());
}
static void same_rates(Gp a, Gp b) {
  double x = X, y = Y;
  std::vector<double> p = a->pDS_IM(x), q = b->pDS_IM(x);
  vc_check("states", p.size() == q.size() && p.size() == 1);
  vc_check_eq("p-damage", p[0], q[0]);
  std::vector<double> v = a->Rate(), w = b->Rate();
  vc_check("rates", v.size() == w.size() && v.size() == 1);
  vc_check_eq("damage-rate", v[0], w[0]);
}
static void same_annual(Gp a, Gp b) {
  double y = Y;
  vc_check_eq("annual-cost", a->E_annual_cost(), b->E_annual_cost());
  vc_check_eq("cost-rate", a->lambda_cost(y), b->lambda_cost(y));
}
static void cg_change(Cg &s, int k, int round) {
  if (k == 0) { if (round) TURNP(s.r, "r2"); else TURNP(s.r, "r1"); }
  if (k == 1) { std::shared_ptr<EDP> n = std::make_shared<EDP>(s.im, s.r = round ? DIAL_RESPONSE("r2") : DIAL_RESPONSE("r1")); s.edp->replace(n); s.edp = n; }
  if (k == 2) { std::shared_ptr<FragilityFn> n = s.spare[round]; s.fr->replace(n); s.fr = n; }
  if (k == 3) { auto d = std::static_pointer_cast<DialLoss>(s.cost); if (round) d->turn("c2m", "c2s"); else d->turn("c1m", "c1s"); }
  if (k == 4) { std::shared_ptr<LossFn> n; if (round) n = LOSS("c2"); else n = LOSS("c1"); s.cost->replace(n); s.cost = n; }
  if (k == 5) { auto d = std::static_pointer_cast<DialLoss>(s.delay); if (round) d->turn("d2m", "d2s"); else d->turn("d1m", "d1s"); }
  if (k == 6) { std::shared_ptr<LossFn> n; if (round) n = LOSS("d2"); else n = LOSS("d1"); s.delay->replace(n); s.delay = n; }
  if (k == 7) s.fr->notify_change();
}
static void cg_case(int first, int second, void (*same)(Gp, Gp)) {
  vc_note("smooth");
  Cg s; s.cg = s.fresh();
  Heard l; l.on(s.cg);
  remember([&]() { read(s.cg); });
  vc_cover("start");
  cg_change(s, first, 0);
  vc_check("told", l.changed >= 1);
  same(s.cg, s.fresh());
  remember([&]() { read(s.cg); });
  l.changed = 0;
  cg_change(s, second, 1);
  vc_check("told-again", l.changed >= 1);
  same(s.cg, s.fresh());
}
#define CG(n, a, b) \
  VC_HARNESS(C24, group_##n##_demand) { cg_case(a, b, same_edp); } \
  VC_HARNESS(C24, group_##n##_intensity) { cg_case(a, b, same_im); } \
  VC_HARNESS(C24, group_##n##_rates) { cg_case(a, b, same_rates); }
#define CGA(n, a, b) CG(n, a, b) VC_HARNESS(C24, group_##n##_annual) { cg_case(a, b, same_annual); }
CG(response_changed, 0, 0)
CG(demand_replaced, 1, 1)
CGA(demand_replaced_changed, 1, 0)
CG(fragility_replaced, 2, 2)
CGA(fragility_replaced_changed, 2, 7)
CG(cost_changed, 3, 3)
CG(cost_replaced, 4, 4)
CGA(cost_replaced_changed, 4, 3)
CG(delay_changed, 5, 5)
CG(delay_replaced, 6, 6)
CGA(delay_replaced_changed, 6, 5)
// ---------------------------------------------------------------- structure
static Gp group_on(std::shared_ptr<IM> im, Pr r, std::shared_ptr<LossFn> cost, std::shared_ptr<FragilityFn> fr) {
  return std::make_shared<CompGroup>(std::make_shared<EDP>(im, r), fr, cost, std::shared_ptr<LossFn>(), 1, 1.0, 1.0);
}
struct St {
  Fnp h; std::shared_ptr<IM> im; bool c, d; LogNormalDist reb, dem; std::vector<Gp> gs; std::shared_ptr<LossFn> cost; Gp spare[2];
  std::shared_ptr<Structure> st;
  St() {
    h = std::make_shared<Dial>("h", 0, 10); im = std::make_shared<IM>(h); im->SetCollapse(fate("cm", "cs"));
    reb = fate("rm", "rs"); dem = fate("xm", "xs"); cost = LOSS("a");
    gs.push_back(group_on(im, DIAL_RESPONSE("a"), cost, FRAG("a")));
    spare[0] = group_on(im, DIAL_RESPONSE("b"), LOSS("b"), FRAG("b")); spare[1] = group_on(im, DIAL_RESPONSE("c"), LOSS("c"), FRAG("c"));
  }
  std::shared_ptr<Structure> fresh() {
    std::shared_ptr<Structure> s = std::make_shared<Structure>("building");
    s->setRebuildCost(reb); s->setDemolitionCost(dem);
    for (size_t i = 0; i < gs.size(); i++) s->AddCompGroup(gs[i]);
    return s;
  }
};
typedef std::shared_ptr<Structure> Sp;
static void same_dist(const char *m, const char *s, LogNormalDist a, LogNormalDist b) { vc_check_eq(m, a.get_mean_X(), b.get_mean_X()); vc_check_eq(s, a.get_sigma_lnX(), b.get_sigma_lnX()); }
static void same_annual(Sp a, Sp b) {
  same_dist("annual-mean", "annual-sd", a->AnnualCost(), b->AnnualCost());
  vc_check_eq("life-cost", a->E_cost(50, 0.06), b->E_cost(50, 0.06));
}
static void same_total(Sp a, Sp b) {
  double x = X;
  same_dist("total-mean", "total-sd", a->TotalCost(x), b->TotalCost(x));
  vc_check_eq("density", a->pdf(x), b->pdf(x));
}
static void same_fates(Sp a, Sp b) {
  double x = X;
  same_dist("cost-nc-mean", "cost-nc-sd", a->Cost(x, false), b->Cost(x, false));
  Structure::COSTS c = a->CostsByFate(x), d = b->CostsByFate(x);
  same_dist("repair-mean", "repair-sd", c.repair, d.repair);
  same_dist("demolition-mean", "demolition-sd", c.demolition, d.demolition);
  same_dist("collapse-mean", "collapse-sd", c.collapse, d.collapse);
  std::pair<LogNormalDist, LogNormalDist> p = a->DeaggregatedCost(x), q = b->DeaggregatedCost(x);
  same_dist("survival-mean", "survival-sd", p.first, q.first);
  same_dist("loss-mean", "loss-sd", p.second, q.second);
  same_dist("rebuild-mean", "rebuild-sd", a->getRebuildCost(), b->getRebuildCost());
  same_dist("demolish-mean", "demolish-sd", a->getDemolitionCost(), b->getDemolitionCost());
  std::vector<Gp> v = a->Components(), w = b->Components();
  vc_check("members", v.size() == w.size());
  for (size_t i = 0; i < v.size(); i++) vc_check("member", v[i] == w[i]);
}
static void st_change(St &s, int k, int round) {
  if (k == 0) { s.reb = round ? fate("r2m", "r2s") : fate("r1m", "r1s"); s.st->setRebuildCost(s.reb); }
  if (k == 1) { s.dem = round ? fate("x2m", "x2s") : fate("x1m", "x1s"); s.st->setDemolitionCost(s.dem); }
  if (k == 2) { Gp g = s.spare[round]; s.gs.push_back(g); s.st->AddCompGroup(g); }
  if (k == 3) { Gp g = s.gs[0]; s.gs.erase(s.gs.begin()); s.st->RemoveCompGroup(g); }
  if (k == 4) { Gp g = s.spare[round]; s.gs[0]->replace(g); s.gs[0] = g; }
  if (k == 5) { auto d = std::static_pointer_cast<DialLoss>(s.cost); if (round) d->turn("a2m", "a2s"); else d->turn("a1m", "a1s"); }
  if (k == 6) std::static_pointer_cast<Dial>(s.h)->turn(round ? "h2" : "h1");
  if (k == 7) { std::shared_ptr<IM> n = std::make_shared<IM>(s.h = round ? std::make_shared<Dial>("h2", 0, 10) : std::make_shared<Dial>("h1", 0, 10)); s.im->replace(n); s.im = n; }
  if (k == 8) s.im->SetDemolition(round ? fate("d2m", "d2s") : fate("d1m", "d1s"));
}
static void st_case(int first, int second, void (*same)(Sp, Sp)) {
  vc_note("smooth");
  St s; s.st = s.fresh();
  remember([&]() { s.st->AnnualCost(); });
  vc_cover("start");
  st_change(s, first, 0);
  same(s.st, s.fresh());
  remember([&]() { s.st->AnnualCost(); });
  st_change(s, second, 1);
  same(s.st, s.fresh());
}
#define ST(n, a, b) \
  VC_HARNESS(C24, structure_##n##_annual) { st_case(a, b, same_annual); } \
  VC_HARNESS(C24, structure_##n##_total) { st_case(a, b, same_total); } \
  VC_HARNESS(C24, structure_##n##_fates) { st_case(a, b, same_fates); }
ST(rebuild, 0, 0)
ST(demolition_cost, 1, 1)
ST(add, 2, 2)
ST(add_remove, 2, 3)
ST(group_replaced, 4, 4)
ST(group_changed, 5, 5)
ST(hazard, 6, 6)
ST(intensity_replaced, 7, 7)
ST(intensity_replaced_changed, 7, 6)
ST(fate, 8, 8)
