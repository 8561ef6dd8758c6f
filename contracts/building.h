// structures of component groups
#ifndef BUILDING_H
#define BUILDING_H
#include "groups.h"
#include "structure.h"
// one arbitrary group on a given intensity measure: its own response, fragility and cost function
inline std::shared_ptr<CompGroup> group_on(std::shared_ptr<IM> im, std::shared_ptr<ProbabilisticFn> r, const char *mu, const char *s, const char *m, const char *sd) {
  std::vector<LogNormalDist> ds; ds.push_back(dist(vc_real_in(mu, -2, 2), vc_real_in(s, 0.05, 2)));
  std::shared_ptr<LossFn> none;
  return std::make_shared<CompGroup>(std::make_shared<EDP>(im, r), std::make_shared<FragilityFn>(ds), std::make_shared<AnyLoss1>(m, sd), none, 1, 1.0, 1.0);
}
#define GROUP(im, t) group_on(im, RESPONSE(t), t ".mu", t ".s", t ".cm", t ".cs")
struct Building {
  std::shared_ptr<Curve> h; std::shared_ptr<IM> im; std::shared_ptr<Structure> st; std::vector<std::shared_ptr<CompGroup>> gs;
  double mc, sc, md, sd, mr, sr, mx, sx; bool collapse, demolition;
  Building(int n, bool c = true, bool d = true) : collapse(c), demolition(d) {
    h = std::make_shared<Curve>("h", 0, 10); im = std::make_shared<IM>(h);
    mc = vc_real_in("mc", -2, 2); sc = vc_real_in("sc", 0.05, 2); md = vc_real_in("md", -2, 2); sd = vc_real_in("sd", 0.05, 2);
    mr = vc_real_in("mr", -2, 5); sr = vc_real_in("sr", 0.05, 1); mx = vc_real_in("mx", -2, 5); sx = vc_real_in("sx", 0.05, 1);
    if (c) im->SetCollapse(dist(mc, sc));
    if (d) im->SetDemolition(dist(md, sd));
    st = std::make_shared<Structure>("building");
    st->setRebuildCost(dist(mr, sr)); st->setDemolitionCost(dist(mx, sx));
    if (n > 0) add(GROUP(im, "a"));
    if (n > 1) add(GROUP(im, "b"));
    if (n > 2) add(GROUP(im, "c"));
  }
  void add(std::shared_ptr<CompGroup> g) { gs.push_back(g); st->AddCompGroup(g); }
  double pc(double x) const { return im->pCollapse(x); }
  double pd(double x) const { return im->pDemolition(x); }
  double pr(double x) const { return im->pRepair(x); }
  // moments of the fates' costs
  double rebuild_mean() const { return dist(mr, sr).get_mean_X(); }
  double demolish_mean() const { return dist(mx, sx).get_mean_X(); }
  double rebuild_sq() const { double s = dist(mr, sr).get_sigma_X(), m = rebuild_mean(); return m * m + s * s; }
  double demolish_sq() const { double s = dist(mx, sx).get_sigma_X(), m = demolish_mean(); return m * m + s * s; }
};
typedef std::shared_ptr<Building> Bd;
// independent sum of the groups' costs
inline double sum_mean(Bd b, double x) { double m = 0; for (size_t i = 0; i < b->gs.size(); i++) m += b->gs[i]->CostDist_IM(x).get_mean_X(); return m; }
inline double sum_var(Bd b, double x) { double v = 0; for (size_t i = 0; i < b->gs.size(); i++) { double s = b->gs[i]->CostDist_IM(x).get_sigma_X(); v += s * s; } return v; }
#endif
