// C26: bulk queries equal pointwise queries.
#include "building.h"
static std::vector<double> list(int n) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(vc_elem("x", i, 0, 50)); return v; }
#define N vc_int("n", 0, 1 << 30)
struct Hazard {
  std::shared_ptr<Curve> h; std::shared_ptr<IM> im;
  Hazard(bool c = true, bool d = true) {
    h = std::make_shared<Curve>("h", 0, 10); im = std::make_shared<IM>(h);
    if (c) im->SetCollapse(dist(vc_real_in("mc", -2, 2), vc_real_in("sc", 0.05, 2)));
    if (d) im->SetDemolition(dist(vc_real_in("md", -2, 2), vc_real_in("sd", 0.05, 2)));
  }
};
// the list form of QUERY on OBJ against its single form
#define BULK(NAME, SETUP, MANY, ONE) \
VC_HARNESS(C26, NAME) { \
  vc_note("smooth"); \
  SETUP \
  int n = N; std::vector<double> x = list(n); \
  vc_cover("start"); \
  std::vector<double> r = MANY(x); \
  vc_check("length", (int)r.size() == n); \
  if (n == 0) return; \
  int i = vc_index("i", n); \
  vc_cover("element"); \
  vc_check_int("value", r[i], ONE(vc_elem("x", i, 0, 50))); \
}
#define IMS Hazard z(vc_bool("c"), vc_bool("d"));
BULK(hazard, IMS, z.im->lambda, z.im->lambda)
BULK(collapse, IMS, z.im->pCollapse, z.im->pCollapse)
BULK(demolition, IMS, z.im->pDemolition, z.im->pDemolition)
BULK(repair, IMS, z.im->pRepair, z.im->pRepair)
#define EDPS Hazard z; EDP e(z.im, RESPONSE("r"));
BULK(edp_meanln, EDPS, e.MeanLn, e.MeanLn)
BULK(edp_median, EDPS, e.Median, e.Median)
BULK(edp_mean, EDPS, e.Mean, e.Mean)
BULK(edp_sdln, EDPS, e.SD_ln, e.SD_ln)
BULK(edp_sd, EDPS, e.SD, e.SD)
BULK(edp_rate, EDPS, e.par_lambda, e.lambda)
// virtual dispatch: the list form of a compound demand uses the compound's own single form
#define COMP Hazard z; CompoundEDP c(z.im, RESPONSE("a"), RESPONSE("b"), "c"); EDP &e = c;
BULK(compound_meanln, COMP, e.MeanLn, e.MeanLn)
BULK(compound_median, COMP, e.Median, e.Median)
BULK(compound_mean, COMP, e.Mean, e.Mean)
BULK(compound_sdln, COMP, e.SD_ln, e.SD_ln)
BULK(compound_sd, COMP, e.SD, e.SD)
BULK(compound_rate, COMP, e.par_lambda, e.lambda)
VC_HARNESS(C26, lifetimes) {
  vc_note("smooth");
  Bd b = std::make_shared<Building>(1);
  int n = N; double r = vc_real_in("rate", 0.001, 1);
  std::vector<int> t; for (int i = 0; i < n; i++) t.push_back(vc_elem_int("t", i, 0, 1000));
  vc_cover("start");
  std::vector<double> v = b->st->E_cost(t, r);
  vc_check("length", (int)v.size() == n);
  if (n == 0) return;
  int i = vc_index("i", n);
  vc_cover("element");
  vc_check_int("value", v[i], b->st->E_cost(vc_elem_int("t", i, 0, 1000), r));
}
