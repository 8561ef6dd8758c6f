SEEDS = []
RP, CA, CAH, FNH = 'src/replaceable.h', 'src/caching.cpp', 'src/caching.h', 'src/functions.h'
def seed(id, prop, edits, needs, breaks, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
LN, FN, FR, LO, RE, REH, CG, ST, MAQ = ['src/%s' % x for x in ('lognormaldist.cpp', 'functions.cpp', 'fragility.cpp', 'loss_functions.cpp', 'relationships.cpp', 'relationships.h', 'comp_group.cpp', 'structure.cpp', 'maq.cpp')]

seed('c05-interval', 'C05', [(LO, 'mean = cost_at_min + double(count - count_min)/(count_max - count_min) * (cost_at_max - cost_at_min);', 'mean = cost_at_min - double(count - count_min)/(count_max - count_min) * fabs(cost_at_max - cost_at_min);'), (LO, '#include <vector>', '#include <vector>\n#include <cmath>')],
 'a bi-level loss whose unit cost grows with the count', 'unit cost between the two levels is not interpolated when the cost at the upper count is the larger',
'''int main() {
    for (double hi : {4.0, 30.0}) {
        auto l = make_shared<BiLevelLoss>(5, 15, 10.0, hi, 0.3);
        vector<shared_ptr<BiLevelLoss>> v = { l };
        BiLevelLossFn fn(v);
        near("mean", fn.CalculateLoss({1.0}, 10, 1.0).get_mean_X(), 10 * (10.0 + hi) / 2);
    }
    return bad != 0;
}
''')
seed('c06-asymptote', 'C06', [(FN, 'if (x >= this->IM_asy) {', 'if (x > this->IM_asy) {')],
 'a negative shape parameter queried exactly at the asymptote (or a positive one)', 'the hyperbolic hazard does not reach zero at its asymptote',
'''int main() {
    NonLinearHyperbolicLaw f(1200.0, 29.8, 62.2), g(1200.0, 29.8, -3.0);
    near("at", f.ValueAt(29.8), 0); near("beyond", f.ValueAt(30), 0); near("at", g.ValueAt(29.8), 0);
    return bad != 0;
}
''')
seed('c07-mean-zero', 'C07', [(FN, 'return distribution(x).get_sigma_X();', 'double sd = distribution(x).get_sigma_X();\n        return sd > Mean(x) * 4 ? Mean(x) * 4 : sd;')],
 'a curve with a dispersion so large that the SD exceeds four means', 'the SD the curve reports is not that of the lognormal it describes',
'''int main() {
    auto mu = make_shared<PowerLawParametricCurve>(0.1, 1.5); auto sd = make_shared<PowerLawParametricCurve>(0.5, 1.0);
    LogNormalFn f(mu, LogNormalFn::MEDIAN_X, sd, LogNormalFn::SIGMA_LN_X);
    for (double x : {0.1, 1.0, 2.0, 5.0, 7.0}) { double s = 0.5 * x, m = 0.1 * pow(x, 1.5); near("sd", f.SD(x), m * exp(s * s / 2) * sqrt(exp(s * s) - 1)); }
    return bad != 0;
}
''')
seed('c08-repair-residual', 'C08', [(REH, 'return 1.0 - (pDemolition(im) + pCollapse(im));', 'double used = pDemolition(im) + pCollapse(im);\n            return used > 0.999 ? 0 : 1.0 - used;')],
 'an intensity so large that repair is nearly impossible', 'the three fate probabilities do not add up to one',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    im->SetCollapse(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(1.2, 0.4)); im->SetDemolition(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.9, 0.4));
    for (double x : {0.1, 1.0, 2.5, 3.2, 5.0}) near("sum", im->pRepair(x) + im->pDemolition(x) + im->pCollapse(x), 1.0, 1e-7);
    for (double x : {0.1, 1.0, 2.5, 3.2, 4.0}) is("repair", im->pRepair(x) > 0);
    return bad != 0;
}
''')
seed('c09-demolition-unset', 'C09', [(RE, '        if (demolition) {\n            Integration::MAQ_RESULT result;', '        if (demolition && collapse) {\n            Integration::MAQ_RESULT result;')],
 'a demolition probability without a collapse probability', 'the demolition rate is zero although demolition is possible',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    im->SetDemolition(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.9, 0.4));
    auto im2 = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    im2->SetCollapse(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.9, 0.4));
    near("rate", im->DemolitionRate(), im2->CollapseRate(), 1e-2); is("positive", im->DemolitionRate() > 0);
    return bad != 0;
}
''')
seed('c10-tie-first', 'C10', [(RE, 'return second_dependent_rate->X_at_exceedence(base_value, p);', 'return dependent_rate->X_at_exceedence(base_value, p);')],
 'a compound demand whose second curve governs, asked for a quantile', 'the quantile comes from the curve that does not govern',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    auto a = make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(0.1, 1.5), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X);
    auto b = make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(0.3, 0.5), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X);
    CompoundEDP e(im, a, b, "x");
    for (double x : {0.5, 1.0, 2.0, 4.0, 9.0}) near("p", e.P_exceedence(x, e.X_at_exceedence(x, 0.3)), 0.7, 1e-6);
    return bad != 0;
}
''')
seed('c11-empty-edp', 'C11', [(CG, 'double p = this->E_delay_EDP(edp);', 'double p = edp > 20 ? 0 : this->E_delay_EDP(edp);')],
 'a demand measured in a unit in which values exceed 20', 'the mean delay given intensity leaves out the delay at large demands',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    double got[2]; int k = 0;
    for (double u : {1.0, 40.0}) {
        auto edp = make_shared<EDP>(im, make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(u, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X), "e");
        vector<LogNormalDist> fr = { LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.8 * u, 0.3) }, lo = { LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(100, 20) };
        CompGroup g(edp, make_shared<FragilityFn>(fr), make_shared<SimpleLossFn>(lo), make_shared<SimpleLossFn>(lo), 1, 1.0, 1.0, "g");
        got[k++] = g.E_delay_IM(1.0);
    }
    near("unit", got[1], got[0], 2e-2);
    return bad != 0;
}
''')
seed('c12-reuse-first', 'C12', [(CG, 'LogNormalDist dist = FragFn()->DamageStates()[i];', 'LogNormalDist dist = FragFn()->DamageStates()[i > 4 ? 4 : i];')],
 'a fragility function with more than five damage states', 'the probability of every state after the fifth is that of the fifth',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    auto edp = make_shared<EDP>(im, make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(1, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X), "e");
    vector<LogNormalDist> fr, lo;
    for (int i = 0; i < 7; i++) { fr.push_back(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.5 + 0.2 * i, 0.3)); lo.push_back(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(100, 20)); }
    CompGroup g(edp, make_shared<FragilityFn>(fr), make_shared<SimpleLossFn>(lo), make_shared<SimpleLossFn>(lo), 1, 1.0, 1.0, "g");
    auto p = g.pDS_IM(1.0);
    is("length", p.size() == 7);
    for (int i = 1; i < 7; i++) is("decreasing", p[i] < p[i - 1] * 0.97);
    return bad != 0;
}
''')
seed('c01-median-floor', 'C01', [(LN, 'result.mu_lnX = log(median_X);', 'result.mu_lnX = log(std::max(median_X, 1E-6)); // keep the logarithm finite')],
 'a quantity in a unit that makes the median smaller than one millionth', 'a distribution built from its median does not report that median back',
'''int main() {
    for (double c : {1.0, 1e-3, 1e-5, 1e-7, 1e-12}) near("median", LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(c, 0.4).get_median_X(), c);
    return bad != 0;
}
''')
seed('c02-quantile-floor', 'C02', [(LN, 'double result = gsl_cdf_lognormal_Pinv(p, mu_lnX, sigma_lnX);\n        if (result < 0.0) {', 'double result = gsl_cdf_lognormal_Pinv(p, mu_lnX, sigma_lnX);\n        if (result < 1E-9) {')],
 'a quantile smaller than 1e-9', 'the quantile function stops being the inverse of the distribution function',
'''int main() {
    LogNormalDist d = LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(-12, 2);
    for (double p : {0.5, 0.01, 1e-6, 1e-10, 1e-13}) near("p", d.p_at_most(d.x_at_p(p)), p, 1e-6);
    return bad != 0;
}
''')
seed('c04-certain', 'C04', [(FR, 'result[i] = damage_states[i].p_at_most(edp);', 'result[i] = edp > 1E4 ? 1.0 : damage_states[i].p_at_most(edp); // certain')],
 'a demand in a unit in which medians exceed ten thousand', 'a demand above ten thousand is taken to exceed every state for certain',
'''int main() {
    LogNormalDist a = LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(2e4, 0.4), b = LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(5e4, 0.5);
    FragilityFn f({a, b});
    for (double x : {3.0, 9e3, 2e4, 4e4, 1e5}) { auto p = f.pExceeded(x); near("state 1", p[0], a.p_at_most(x)); near("state 2", p[1], b.p_at_most(x)); }
    return bad != 0;
}
''')

seed('c03-many', 'C03', [(LN, 'return ApplyAdjustmentFactor(count);', 'return ApplyAdjustmentFactor(std::min(count, 1E4));')],
 'more than ten thousand identical components', 'scaling by a number of components saturates',
'''int main() {
    LogNormalDist a = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(2, 0.5);
    for (double n : {1.0, 100.0, 9999.0, 25000.0}) { near("mean", LogNormalDist(a).ScaleDistributionByNumComponents(n).get_mean_X(), 2 * n); near("sd", LogNormalDist(a).ScaleDistributionByNumComponents(n).get_sigma_X(), 0.5 * n); }
    return bad != 0;
}
''')
seed('c13-large-cost', 'C13', [(CG, 'return ln_fn.p_at_least(cost) * std::abs(edp->Base_Rate()->DerivativeAt(im));', 'if (cost > 1E9) return 0; // never lost\n                    return ln_fn.p_at_least(cost) * std::abs(edp->Base_Rate()->DerivativeAt(im));')],
 'losses measured in a small unit (cost above 1e9)', 'the hazard of loss is zero for large losses whatever the group can lose',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0); double got[2]; int k = 0;
    for (double u : {1.0, 1e9}) {
        auto edp = make_shared<EDP>(im, make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(1, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X), "e");
        vector<LogNormalDist> fr = { LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.8, 0.3) }, lo = { LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(100 * u, 20 * u) };
        CompGroup g(edp, make_shared<FragilityFn>(fr), make_shared<SimpleLossFn>(lo), make_shared<SimpleLossFn>(lo), 1, 1.0, 1.0, "g");
        got[k++] = g.lambda_cost(50 * u);
    }
    near("unit", got[1], got[0], 2e-2); is("positive", got[0] > 0);
    return bad != 0;
}
''')
seed('c14-wide-demolition', 'C14', [(ST, 'double E_sq_cost_demolition = cost_demolition.get_mean_X() * cost_demolition.get_mean_X() +\n            cost_demolition.get_sigma_X() * cost_demolition.get_sigma_X();', 'double E_sq_cost_demolition = cost_demolition.get_mean_X() * cost_demolition.get_mean_X() * (1 + exp(pow(std::min(cost_demolition.get_sigma_lnX(), 2.0), 2)) - 1);')],
 'a demolition cost of very large dispersion', 'the spread of the total cost underestimates an uncertain demolition cost',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    im->SetDemolition(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(2.0, 0.3));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    auto edp = make_shared<EDP>(im, make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(1, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X), "e");
    vector<LogNormalDist> fr = { LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.8, 0.3) }, lo = { LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(100, 20) };
    auto g = make_shared<CompGroup>(edp, make_shared<FragilityFn>(fr), make_shared<SimpleLossFn>(lo), make_shared<SimpleLossFn>(lo), 1, 1.0, 1.0, "g");
    Structure st("s"); st.AddCompGroup(g);
    for (double c : {0.1, 1.0, 9.0}) {
        st.setDemolitionCost(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(1e4, c * 1e4));
        for (double x : {0.9, 1.5, 2.2}) {
            LogNormalDist r = st.Cost(x, false), t = st.TotalCost(x); double p = im->pDemolition(x), e = r.get_mean_X() * (1 - p) + 1e4 * p;
            double sq = (pow(r.get_mean_X(), 2) + pow(r.get_sigma_X(), 2)) * (1 - p) + 1e8 * (1 + c * c) * p;
            near("mean", t.get_mean_X(), e, 1e-6); near("sd", t.get_sigma_X(), sqrt(sq - e * e), 1e-6);
        }
    }
    return bad != 0;
}
''')

BUILD1 = '''    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    auto edp = make_shared<EDP>(im, make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(1, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X), "e");
    vector<LogNormalDist> fr = { LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.8, 0.3) }, lo = { LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(100, 20) };
    auto frag = make_shared<FragilityFn>(fr); auto loss = make_shared<SimpleLossFn>(lo);
    auto g = make_shared<CompGroup>(edp, frag, loss, loss, 1, 1.0, 1.0, "g");
    Structure st("s"); st.AddCompGroup(g);
'''
seed('c15-long-life', 'C15', [(ST, 'exp(-discount_rate * year)', 'exp(-discount_rate * std::min(year, 250))')],
 'a lifetime longer than 250 years', 'the discounted cost stops growing after 250 years',
'''int main() {
''' + BUILD1 + '''    double a = st.AnnualCost().get_mean_X();
    for (int t : {1, 50, 100, 240, 300, 475, 2500}) for (double r : {0.002, 0.06}) near("cost", st.E_cost(t, r), a * (1 - exp(-r * t)) / r);
    return bad != 0;
}
''')
seed('c19-tiny-tolerance', 'C19', [(MAQ, 'if (tol > 0.0) {', 'if (tol > std::numeric_limits<float>::min()) {')],
 'a positive tolerance below 1e-38', 'a positive tolerance is silently refused',
'''int main() {
    typedef SLAT::Integration::IntegrationSettings S;
    for (double t : {1e-3, 1e-9, 1e-30, 1e-40, 1e-300}) { S::Set_Tolerance(t); near("tolerance", S::Get_Tolerance() / t, 1); }
    S::Set_Tolerance(0.0); near("kept", S::Get_Tolerance() / 1e-300, 1); S::Reset(); near("reset", S::Get_Tolerance(), 1e-3);
    return bad != 0;
}
''')
seed('c23-lower', 'C23', [(RP, 'callbacks.erase(id);', 'auto it = callbacks.lower_bound(id);\n            if (it != callbacks.end()) callbacks.erase(it);')],
 'removing a handle that is no longer registered while a later listener is', 'removing a stale handle removes the next listener',
'''struct T : public Replaceable<T> {};
int main() {
    T t; int a = 0, b = 0, c = 0; shared_ptr<T> w;
    t.add_callbacks([&] () { a++; }, [&] (shared_ptr<T>) {}); int i = t.add_callbacks([&] () { b++; }, [&] (shared_ptr<T>) {}); t.add_callbacks([&] () { c++; }, [&] (shared_ptr<T>) {});
    t.remove_callbacks(i); t.remove_callbacks(i); t.notify_change();
    is("first", a == 1); is("second", b == 0); is("third", c == 1);
    return bad != 0;
}
''')
seed('c26-near-repeat', 'C26', [(RE, 'result[i] = lambda(x[i]);', 'result[i] = (i > 0 && x[i] - x[i - 1] < 1E-9) ? result[i - 1] : lambda(x[i]);')],
 'a list that is not increasing', 'an entry no larger than the one before repeats that value',
'''int main() {
    IM im(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    for (auto v : {vector<double>{0.1, 0.2, 0.3}, vector<double>{2, 1, 0.5}, vector<double>{}, vector<double>{1, 1}}) { auto r = im.lambda(v); is("length", r.size() == v.size()); for (size_t i = 0; i < v.size(); i++) near("value", r[i], im.lambda(v[i])); }
    return bad != 0;
}
''')
seed('c24-shared-demolition', 'C24', [(REH, '''        void SetDemolition(std::shared_ptr<LogNormalDist> new_demolition)
        {
            DemolitionRate.ClearCache();
''', '''        void SetDemolition(std::shared_ptr<LogNormalDist> new_demolition)
        {
            if (!demolition) DemolitionRate.ClearCache();
''')],
 'a demolition probability set through a shared pointer, its rate read, and another one set the same way', 'the demolition rate stays that of the earlier probability',
'''int main() {
    auto mk = [] () { return make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2)); };
    auto d = [] (double m) { return make_shared<LogNormalDist>(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(m, 0.4)); };
    auto a = mk(), b = mk(), c = mk(); a->SetDemolition(d(0.9)); a->DemolitionRate(); a->SetDemolition(d(0.5)); b->SetDemolition(d(0.5));
    near("rate", a->DemolitionRate(), b->DemolitionRate(), 1e-9);
    c->SetDemolition(*d(0.9)); c->DemolitionRate(); c->SetDemolition(*d(0.5)); near("rate", c->DemolitionRate(), b->DemolitionRate(), 1e-9);
    return bad != 0;
}
''')
seed('c24-fragility-delay', 'C24', [(CG, '''                this->delay_EDP_dist.ClearCache();
                this->Rate.ClearCache();
                this->frag_fn = new_frag_fn;
''', '''                if (!this->cost_fn) this->delay_EDP_dist.ClearCache();
                this->Rate.ClearCache();
                this->frag_fn = new_frag_fn;
''')],
 'a group with both losses whose delay was read before its fragility function was replaced', 'the delay given demand stays that of the replaced fragility function',
'''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    auto edp = make_shared<EDP>(im, make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(1, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X), "e");
    auto fr = [] (double m) { vector<LogNormalDist> f = { LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(m, 0.3) }; return make_shared<FragilityFn>(f); };
    vector<LogNormalDist> lo = { LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(100, 20) }; auto loss = make_shared<SimpleLossFn>(lo);
    auto f1 = fr(0.8), f2 = fr(1.4); CompGroup g(edp, f1, loss, loss, 1, 1.0, 1.0, "g"), n(edp, f2, loss, loss, 1, 1.0, 1.0, "n");
    for (double x : {0.3, 0.8, 2.0}) { g.E_delay_EDP(x); g.E_cost_EDP(x); }
    f1->replace(f2);
    for (double x : {0.3, 0.8, 2.0}) { near("delay", g.E_delay_EDP(x), n.E_delay_EDP(x), 1e-12); near("cost", g.E_cost_EDP(x), n.E_cost_EDP(x), 1e-12); }
    return bad != 0;
}
''')
GONE = '''#include <sys/mman.h>
#include <new>
// memory of a destroyed object becomes inaccessible
template<class T, class... A> T *place(A... a) { void *p = mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return new (p) T(a...); }
template<class T> void end(T *t) { t->~T(); mprotect((void *)t, 1 << 16, PROT_NONE); }
'''
seed('c25-second-loss', 'C25', [(CG, '''        if (delay_fn) {
            delay_fn->remove_callbacks(delay_fn_callback_id);''', '''        else if (delay_fn) {
            delay_fn->remove_callbacks(delay_fn_callback_id);''')],
 'a group with both a cost and a delay function destroyed before its delay function changes', 'a destroyed group is called back by its delay function',
GONE + '''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    auto edp = make_shared<EDP>(im, make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(1, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X), "e");
    vector<LogNormalDist> f = { LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.8, 0.3) }, lo = { LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(100, 20) };
    auto frag = make_shared<FragilityFn>(f);
    for (int k = 1; k < 4; k++) {
        auto c = make_shared<SimpleLossFn>(lo), d = make_shared<SimpleLossFn>(lo);
        auto g = place<CompGroup>(edp, frag, k & 1 ? c : shared_ptr<SimpleLossFn>(), k & 2 ? d : shared_ptr<SimpleLossFn>(), 1, 1.0, 1.0, "g");
        end(g); c->notify_change(); d->notify_change(); edp->notify_change(); frag->notify_change();
    }
    return bad != 0;
}
''')
seed('c25-second-response', 'C25', [(REH, 'second_dependent_rate->remove_callbacks(second_dependent_rate_callback_id);', 'dependent_rate->remove_callbacks(second_dependent_rate_callback_id);')],
 'a compound demand destroyed before its second response relationship changes', 'a destroyed compound demand is called back by its second response relationship',
GONE + '''int main() {
    auto im = make_shared<IM>(make_shared<NonLinearHyperbolicLaw>(1200.0, 29.8, 62.2));
    auto s = make_shared<PowerLawParametricCurve>(0.4, 0.0);
    auto r = [&] () { return make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(1, 1.0), LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X); };
    auto a = r(), b = r();
    auto e = place<CompoundEDP>(im, a, b, string("e")); end(e);
    im->notify_change(); a->notify_change(); b->notify_change();
    return bad != 0;
}
''')
seed('c22-skip-last', 'C22', [(CA, 'for (auto it=Private::caches.begin(); it != Private::caches.end(); it++) {\n                it->second();', 'size_t pending = std::min(Private::caches.size(), (size_t)1 << 10);\n            for (auto it=Private::caches.begin(); pending > 0; it++, pending--) {\n                it->second();'), (CA, '#include "caching.h"', '#include "caching.h"\n#include <algorithm>')],
 'more than 1024 cache objects alive at once', 'a global clear leaves the caches beyond the first 1024 as they were',
'''int main() {
    double now = 1; vector<shared_ptr<Caching::CachedValue<double>>> v;
    for (int i = 0; i < 3000; i++) { v.push_back(make_shared<Caching::CachedValue<double>>([&] () { return now; })); (*v.back())(); }
    now = 2; Caching::Clear_Caches();
    for (auto &x : v) near("value", (*x)(), 2);
    return bad != 0;
}
''')
seed('c22-unhit', 'C22', [(CAH, '''                cache.clear(); 
''', '''                if (hits != 2 || total_calls != 3) cache.clear(); 
''')],
 'a cached function asked exactly three times, always with the same argument, before the clear', 'a cache with one miss and two hits survives the global clear',
'''int main() {
    double k = 1; Caching::CachedFunction<double, double> f([&] (double x) { return k * x; });
    near("value", f(3), 3); k = 2; near("cached", f(3), 3); near("cached", f(3), 3);
    Caching::Clear_Caches(); near("fresh", f(3), 6);
    return bad != 0;
}
''')
SEARCH = '''typedef SLAT::Integration::IntegrationSettings S;
static double f_lo = 1e300, f_hi = -1e300; static int f_n = 0;
// integrate with room for three evaluations after the search; leaves the ends of the first interval, as t=1/(1+x)
template<class F> void range(S::METHOD_TYPE m, unsigned limit, F f, double *lo, double *hi) {
    S::Set_Integration_Method(m); S::Set_Integration_Search_Limit(limit); S::Set_Integration_Eval_Limit(1);
    vector<double> t;
    auto before = SLAT::Integration::get_statistics()->number_search_fails;
    SLAT::Integration::MAQ([&] (double x) { t.push_back(1 / (1 + x)); return f(x); });
    if (SLAT::Integration::get_statistics()->number_search_fails != before) { *lo = 1; *hi = 0; return; }
    size_t n = t.size();
    *lo = min(t[n-3], min(t[n-2], t[n-1])); *hi = max(t[n-3], max(t[n-2], t[n-1]));
}
'''
seed('c18-last-probe', 'C18', [(MAQ, '''                    a = 2.0 * c - 1.0;
                }

                if (fc <= std::numeric_limits<double>::epsilon()) {''', '''                    a = 2.0 * c - 1.0;
                }

                if (evaluations >= integration_eval_limit) {''')],
 'the scattered search finding a value at the very last evaluation it is allowed', 'the search reports that nothing was found although its last probe saw a value above rounding level',
SEARCH + '''int main() {
    for (unsigned limit = 3; limit < 40; limit++) {
        vector<double> x; double lo, hi;
        range(S::SCATTERED, limit, [&] (double v) { x.push_back(v); return 0.0; }, &lo, &hi);
        size_t k = 0, n = x.size();
        range(S::SCATTERED, limit, [&] (double v) { return ++k == n ? 1.0 : 0.0; }, &lo, &hi);
        double t = 1 / (1 + x[n-1]); is("holds the last probe", lo - 1e-9 <= t && t <= hi + 1e-9);
    }
    return bad != 0;
}
''')
seed('c18-ignores-origin', 'C18', [(MAQ, '''            if (fb <= std::numeric_limits<double>::epsilon() && 
                fc <= std::numeric_limits<double>::epsilon()) 
            {
                long int intervals = 4;
                while (evaluations < integration_eval_limit/2 &&''', '''            if (fc <= std::numeric_limits<double>::epsilon()) 
            {
                long int intervals = 4;
                while (evaluations < integration_eval_limit/2 &&''')],
 'the low-first search on an integrand that is positive at zero and vanishes at every other probe', 'a value seen at the origin is forgotten: no range, or one that leaves it out, is proposed',
SEARCH + '''int main() {
    for (int m = S::BINARY_SUBDIVISION; m <= S::DIRECTED; m++) {
        double lo, hi;
        range((S::METHOD_TYPE)m, 100, [] (double x) { return x < 1e-9 ? 1.0 : 0.0; }, &lo, &hi);
        is("holds the origin", lo <= hi && hi >= 1 - 1e-9);
    }
    return bad != 0;
}
''')
seed('c18-past-the-origin', 'C18', [(MAQ, '''                if (c < 0.5) {
                    a = 0.0;
                    b = 2.0 * c;
                } else {
                    b = 1.0;
                    a = 2.0 * c - 1.0;
                }

                    
''', '''                if (c <= 0.625) {
                    a = 0.0;
                    b = 2.0 * c;
                } else {
                    b = 1.0;
                    a = 2.0 * c - 1.0;
                }

                    
''')],
 'the directed search first meeting a positive value below rounding level at t between a half and 0.625', 'the refinement starts from an interval reaching past t=1 (negative intensities) and the range leaves out or exceeds what was probed',
SEARCH + '''int main() {
    unsigned r = 1;
    for (int k = 0; k < 4000 && !bad; k++) {          // integrands below rounding level, zero on most of the axis
        bool on[128]; for (bool &o : on) { r = r * 1664525u + 1013904223u; o = r >> 28 < 3; }
        double lo, hi; bool neg = false;
        range(S::DIRECTED, 400, [&] (double x) { double t = 1 / (1 + x); if (x < -1e-12) neg = true; int i = (int)(t * 64); return i >= 0 && i < 128 && on[i] ? 1e-17 * (1 + t) : 0.0; }, &lo, &hi);
        is("no negative intensity", !neg);
    }
    return bad != 0;
}
''')
seed('c17-last-interval', 'C17', [(MAQ, '''                    success = false;
                    integral = NAN;
                    break;''', '''                    success = region_stack.size() == 1 && integral != 0.0;
                    integral = success ? integral + region_stack.top().r : NAN;
                    break;''')],
 'the evaluation limit running out when exactly one sub-interval, not the first, is still open', 'the coarse estimate of the open sub-interval is used and the integration reported as a success',
SEARCH + '''int main() {
    S::Set_Tolerance(1e-7); S::Set_Integration_Search_Limit(100);
    auto f = [] (double x) { return exp(-x * x); };
    for (unsigned limit = 1; limit < 600; limit++) {
        S::Set_Integration_Eval_Limit(limit);
        auto r = SLAT::Integration::MAQ(f);
        is("running out fails", r.evaluations <= limit || (!r.successful && std::isnan(r.integral)));
    }
    return bad != 0;
}
''')
seed('c17-undefined-at-infinity', 'C17', [(MAQ, '''            if (std::isnan(fa)) {
                std::cout''', '''            if (a == 0 && std::isnan(fa)) {
                fa = 0;                 // beyond the reach of the integrand
            }
            if (std::isnan(fa)) {
                std::cout''')],
 'an integrand undefined only at infinity, with a range that reaches infinity', 'the undefined value is taken for zero and the integration succeeds',
SEARCH + '''int main() {
    S::Set_Integration_Search_Limit(100); S::Set_Integration_Eval_Limit(2000);
    for (int m = S::BINARY_SUBDIVISION; m <= S::DIRECTED; m++) {
        S::Set_Integration_Method((S::METHOD_TYPE)m);
        bool undef = false;
        auto r = SLAT::Integration::MAQ([&] (double x) { if (std::isinf(x)) undef = true; return std::isinf(x) ? NAN : exp(-x) * x; });
        is("undefined point fails", !undef || (!r.successful && std::isnan(r.integral)));
    }
    return bad != 0;
}
''')
seed('c17-refines-past-limit', 'C17', [(MAQ, '''                while (fc <= std::numeric_limits<double>::epsilon() && 
                       evaluations < integration_eval_limit &&
                       (b - a''', '''                while (fc <= std::numeric_limits<double>::epsilon() && 
                       (b - a''')],
 'the directed search meeting positive values that never exceed rounding level, with a small search limit', 'the refinement goes on after the search limit is used up',
SEARCH + '''int main() {
    S::Set_Integration_Method(S::DIRECTED); S::Set_Integration_Eval_Limit(1);
    for (unsigned limit = 3; limit < 20; limit++) {
        S::Set_Integration_Search_Limit(limit);
        auto before = SLAT::Integration::get_statistics()->total_search_evals;
        SLAT::Integration::MAQ([&] (double x) { return x > 0.2 && x < 0.9 ? 1e-17 : 0.0; });
        is("within twice the limit", SLAT::Integration::get_statistics()->total_search_evals - before <= 2 * limit);
    }
    return bad != 0;
}
''')
seed('c20-undefined-uncounted', 'C20', [(MAQ, '''                if (std::isnan(fe)) {
                    BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << "; fe is NAN";
#pragma omp critical
                    stats.nans++;
#pragma omp critical
                    stats.total_integrations_evals += counter;
''', '''                if (std::isnan(fe)) {
                    BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << "; fe is NAN";
#pragma omp critical
                    stats.nans++;
''')],
 'an integrand undefined first at the middle of the upper half of an interval', 'the evaluations of that integration are missing from the total',
SEARCH + '''int main() {
    for (int k = 3; k < 40; k++) {                // undefined at the k-th evaluation
        auto before = *SLAT::Integration::get_statistics(); int n = 0;
        auto r = SLAT::Integration::MAQ([&] (double x) { return ++n == k ? NAN : exp(-x * x) * (2 + sin(20 / (1 + x))); });
        auto after = *SLAT::Integration::get_statistics();
        if (after.number_search_fails == before.number_search_fails) near("total", after.total_integrations_evals, before.total_integrations_evals + r.evaluations);
    }
    return bad != 0;
}
''')
seed('c20-reset-keeps-maximum', 'C20', [(MAQ, '''    stats.max_successful_search = 0;
    stats.number_search_fails = 0;''', '''    stats.number_search_fails = 0;''')],
 'a reset after a search', 'the largest search before the reset is still reported after it',
SEARCH + '''int main() {
    SLAT::Integration::MAQ([&] (double x) { return exp(-x); });
    SLAT::Integration::reset_statistics();
    near("maximum", SLAT::Integration::get_statistics()->max_successful_search, 0);
    return bad != 0;
}
''')
