// C12: probability of reaching each damage state given intensity, and its annual rate.
#include "groups.h"
static LogNormalDist state(int i) { return dist(vc_elem("mu", i, -5, 5), vc_elem("s", i, 0.05, 2)); }
static double p_state(std::shared_ptr<ProbabilisticFn> r, int i, double im) {
  double mu = vc_elem("mu", i, -5, 5), s = vc_elem("s", i, 0.05, 2);
  return integral_or(0, [=](double y) -> double { if (y == 0) return 0; return lnp(mu, s, y) * density(r, im, y); });
}
static double rate_state(std::shared_ptr<Curve> h, std::shared_ptr<ProbabilisticFn> r, int i) {
  return integral_or(NAN, [=](double x) -> double {
    if (x == 0) return 0;
    return p_state(r, i, x) * std::fabs(slope([h](double v) { return h->at(v); }, x)); });
}
struct Model {
  std::shared_ptr<Curve> h; std::shared_ptr<IM> im; std::shared_ptr<ProbabilisticFn> r; std::shared_ptr<CompGroup> cg;
  Model(int n) {
    vc_increasing("mu");
    h = std::make_shared<Curve>("h", 0, 10); im = std::make_shared<IM>(h); r = RESPONSE("r");
    std::vector<LogNormalDist> ds;
    for (int i = 0; i < n; i++) ds.push_back(state(i));
    std::shared_ptr<LossFn> none;
    cg = std::make_shared<CompGroup>(std::make_shared<EDP>(im, r), std::make_shared<FragilityFn>(ds), none, none, vc_int("count", -5, 1000), 1.0, 1.0);
  }
};
#ifdef VC_NATIVE
#define STATES 4
#else
#define STATES (1 << 30)
#endif
VC_HARNESS(C12, probability) {
  vc_note("smooth");
  int n = vc_int("n", 1, STATES);
  Model m(n);
  double x = vc_real_in("x", 0, 100);
  vc_cover("start");
  std::vector<double> p = m.cg->pDS_IM(x);
  vc_check("size", (int)p.size() == n);
  int i = vc_index("i", n);
  vc_check_int("probability", p[i], p_state(m.r, i, x));
}
VC_HARNESS(C12, rate) {
  vc_note("smooth");
  int n = vc_int("n", 1, STATES);
  Model m(n);
  vc_cover("start");
  std::vector<double> p = m.cg->Rate();
  vc_check("size", (int)p.size() == n);
  int i = vc_index("i", n);
  vc_check_int("rate", p[i], rate_state(m.h, m.r, i));
}
