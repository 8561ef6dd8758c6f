import json
P=[]
def p(id,title,st,text,why,files,mech,obs=None,over=("inputs",),state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=["src/"+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title)); P.append(d)
p('C01','Lognormal parameterisations are exact and mutually consistent',
 "A lognormal distribution built from any supported pair of parameters reports those parameters back, and its statistics satisfy mean = median*exp(s^2/2), SD = mean*sqrt(exp(s^2)-1) and median = exp(mean of the logarithm), where s is the SD of the logarithm; built from a mean and an SD, s^2 = ln(1+SD^2/mean^2). A zero mean gives a distribution whose mean and SD are zero, and an undefined (default) distribution reports undefined statistics.",
 "every real location parameter (positive where it is a mean or median), every dispersion >= 0, every parameter pair, every getter",
 "The unit tests compare a few sampled parameter values; the identities are claimed on a continuum.",
 ["lognormaldist.cpp","lognormaldist.h"],[("factories","LogNormalDist_from_*"),("getters","get_mean_X, get_median_X, get_mu_lnX, get_sigma_X, get_sigma_lnX")],["getters"])
p('C02','Tail probabilities and quantiles of a distribution are coherent',
 "For any lognormal distribution the chance of not exceeding x is PHI((ln x - mu)/s): it and its complement lie in [0,1], add up to one, and are respectively non-decreasing and non-increasing in x; the value at probability p is exp(mu + s*PHIinv(p)) and inverts it. Asked of an undefined distribution both chances are undefined, and a distribution with only its location undefined is never exceeded.",
 "every location, every s > 0, every x > 0, every p in (0,1), and the undefined parameter combinations",
 "Tests compare a dozen sampled points; monotonicity and complementarity quantify over all pairs of points.",
 ["lognormaldist.cpp"],[("probability queries","LogNormalDist::p_at_least, p_at_most, x_at_p")],["query results"])
p('C03','Mixing, summing and scaling distributions preserve moments for any list',
 "The weighted mixture of a list of distributions has as mean the weighted sum of their means and as second moment the weighted sum of their second moments; the sum of independent distributions has as mean the sum of the means and as variance the sum of the variances, for lists of any length. Lists of distributions and weights of different length are rejected, and scaling by a positive factor scales the mean by it and leaves the logarithmic SD alone.",
 "lists of any length with any member parameters and weights, every scale factor",
 "Tests use fixed lists of two or three members; the loops are claimed for every length.",
 ["lognormaldist.cpp"],[("mixture, sum, scaling","LogNormalDist::AddWeightedDistributions, AddDistributions, ApplyAdjustmentFactor, ScaleDistributionBy*")],["statistics of the result"])
p('C04','Fragility functions accept only ordered states and split probability',
 "A fragility function is created only from a non-empty list of damage states with strictly increasing medians, and keeps the states in the order given; any other list is rejected with an error. At any demand the exceedance chance of each state is that of its own distribution, and the chance that a state is the most severe one reached is its exceedance chance less that of the next state, never below zero, with the last state keeping its own.",
 "any number of states, any distributions, any demand",
 "Tests build fragility functions with a few states and sample demands.",
 ["fragility.cpp","fragility.h"],[("constructor check","FragilityFn::FragilityFn"),("pExceeded, pHighest","FragilityFn")],["exceptions","result vectors"])
p('C05','Loss given damage is the probability-weighted loss times count and factor',
 "For any damage-state probabilities, component count and adjustment factor, the loss has as mean count x factor x the probability-weighted mean of the per-state losses, and the logarithmic SD of the weighted mixture. Under economies of scale the per-component mean is the cost at the lower count up to that count, the cost at the upper count from that count on, and in between lies on the straight line joining them. Empty state lists and probability lists of the wrong length are rejected.",
 "any number of states, probabilities, positive counts, factors and two-level curves",
 "Tests sample a few counts and probability vectors.",
 ["loss_functions.cpp","loss_functions.h","lognormaldist.cpp"],[("simple loss","SimpleLossFn::CalculateUnadjustedLoss"),("two-level loss","BiLevelLoss::LossFunctionsForCount_calc, BiLevelLossFn::CalculateUnadjustedLoss"),("adjustment","LossFn::CalculateLoss")],["statistics of the loss"])
p('C06','Hazard and response curves follow their formulas on the whole axis',
 "A power curve evaluates to a*x^b; a hyperbolic curve evaluates to v_asy*exp(alpha/ln(x/IM_asy)) below its asymptote and to exactly zero from the asymptote on. A tabulated curve returns the end values outside its table and inside it interpolates linearly (or linearly in log-log space), through every tabulated point, for tables of any length.",
 "all parameters, all x, tables of any length",
 "Tests sample a handful of abscissae of one curve of each kind.",
 ["functions.cpp","functions.h"],[("formulas","PowerLawParametricCurve::Evaluate, NonLinearHyperbolicLaw::Evaluate"),("interpolation","LinearInterpolatedFn, LogLogInterpolatedFn"),("dispatch","DeterministicFn::ValueAt")],["value at x"])
p('C07','Probabilistic curves agree with the lognormal their two curves describe',
 "At every x a lognormal relationship reports the mean, median, logarithmic mean, SD, logarithmic SD, exceedance probability and quantile of the one lognormal distribution determined by the values of its location curve and dispersion curve at x, whichever of mean, median or logarithmic mean the location curve gives and whichever of SD or logarithmic SD the dispersion curve gives. Unknown kinds of curve are rejected with an error.",
 "all location and dispersion curves, all x, all six combinations of parameter kinds, every reported statistic",
 "Tests exercise the logarithmic-mean combination only, at sampled points.",
 ["functions.cpp","functions.h","lognormaldist.cpp"],[("statistic selection","LogNormalFn::LogNormalFn"),("reports","LogNormalFn::Mean, Median, MeanLn, SD, SD_ln, P_exceedence, X_at_exceedence")],["reported statistics"])
p('C08','The fates of a building have probabilities that sum to one',
 "At every intensity the probabilities of collapse, demolition and repair sum to one: collapse follows the collapse distribution, demolition is the demolition distribution less collapse, repair is the rest. A fate whose distribution was never set has probability zero.",
 "all collapse and demolition distributions, set or unset, all intensities",
 "Tests sample a few intensities for one pair of distributions.",
 ["relationships.cpp","relationships.h"],[("fate probabilities","IM::pCollapse, IM::pDemolition, IM::pRepair")],["the three probabilities"])
p('C09','Collapse and demolition rates integrate probability over the hazard curve',
 "The annual rate of collapse (demolition) is the integral over all intensities of the absolute slope of the hazard curve times the probability of collapse (demolition) at that intensity. It is zero when no such distribution is set, and undefined (not a number) when the integration fails.",
 "all hazard curves and distributions, integration success and failure",
 "Tests compare one hazard curve's rates with a printed value.",
 ["relationships.cpp","relationships.h"],[("rate integrals","IM::CollapseRate_calc, IM::DemolitionRate_calc"),("slope","IM::DerivativeAt")],["the two rates"])
p('C10','Demand hazard folds response, repair, collapse and demolition correctly',
 "The rate of exceeding a demand z is the integral over intensities of the absolute hazard slope times [P(exceed z) x P(repair) + 1 - P(repair)], with zero contribution at zero intensity, and undefined when integration fails. Every statistic of a demand is that of its response relationship; a demand with two response relationships takes every statistic at a given intensity from the one with the larger mean there, and the second one on ties.",
 "all hazard curves, response relationships, intensities and demands",
 "Tests compare sampled demand levels of one or two models.",
 ["relationships.cpp","relationships.h"],[("demand rate","EDP::calc_lambda"),("delegation","EDP and CompoundEDP statistics, CompoundEDP::WhichToUse")],["rate and statistics"])
p('C11','Component loss given demand and intensity follow total probability',
 "For a component group the loss given demand is that of its loss function at the damage-state probabilities of that demand, its count and adjustment factor. Given intensity, the expected loss (cost or delay) is the integral over demands of the loss given demand times the probability density of the demand, and the logarithmic SD is derived from the mean and second moment integrated the same way over the whole group, being zero where the spread or the mean vanishes. Groups with no components, or no loss function, report zero or undefined loss accordingly.",
 "all demands, fragilities, loss functions, counts, factors, intensities, integration outcomes",
 "Tests compare sampled intensities of two component groups.",
 ["comp_group.cpp","comp_group.h"],[("loss given demand","CompGroup::cost_EDP_dist, delay_EDP_dist and getters"),("loss given intensity","E_cost_IM_calc, SD_ln_cost_IM_calc, E_delay_IM_calc, SD_ln_delay_IM_calc, CostDist_IM")],["reported statistics"])
p('C12','Damage-state probabilities and rates fold fragility through the hazard',
 "For every damage state of a component group the probability of reaching it at an intensity is the integral over demands of its fragility times the demand's probability density, and its annual rate is the integral over intensities of that probability times the absolute hazard slope; one value is reported per damage state, in order. A rate whose integration fails is reported as undefined, and a probability whose integration fails as zero.",
 "any number of damage states, all curves and intensities",
 "Tests compare one group's states at sampled intensities.",
 ["comp_group.cpp","comp_group.h"],[("probability","CompGroup::pDS_IM, pDS_IM_calc"),("rate","CompGroup::calc_Rate")],["result vectors"])
p('C13','Annual component loss and loss hazard integrate over the hazard curve',
 "The expected annual cost of a component group is the integral over intensities of expected cost times the absolute hazard slope, and the rate of exceeding a cost is the integral of the probability, under the lognormal with the group's mean and logarithmic SD at each intensity, of exceeding it times that slope. Both are zero for an empty group or a failed integration.",
 "all groups, hazard curves, cost thresholds, integration outcomes",
 "Tests compare printed values of one model.",
 ["comp_group.cpp","comp_group.h"],[("annual cost","CompGroup::E_annual_cost_calc"),("loss hazard","CompGroup::lambda_cost_calc")],["reported values"])
p('C14','Structure cost aggregates components and fates by total probability',
 "Repair cost given intensity is the independent sum of the component group costs; total cost has as mean and second moment the sums over repair, demolition and collapse of the fate's probability times its cost's mean and second moment, with a fate of zero probability contributing nothing. Costs by fate and by collapse report each fate's cost scaled by its probability, and cost with collapse considered is the mixture of repair and rebuilding weighted by the collapse probability.",
 "any number of component groups, all costs, fate probabilities and intensities",
 "Tests sample a few intensities of a structure of two groups.",
 ["structure.cpp","structure.h"],[("aggregation","Structure::CostNC, Cost, TotalCost, CostsByFate, DeaggregatedCost, pdf")],["statistics of the costs"])
p('C15','Annual and discounted structure cost',
 "The expected annual cost of a structure is the integral over intensities of total expected cost times the absolute hazard slope, its second moment is integrated likewise, and a structure without components or whose integration fails has undefined annual cost. The expected cost over a lifetime of t years at discount rate r is the annual cost times (1 - exp(-r*t))/r.",
 "all structures, hazard curves, lifetimes and non-zero discount rates",
 "Tests compare a few lifetimes of one structure.",
 ["structure.cpp","structure.h"],[("annual cost","Structure::calc_AnnualCost"),("discounting","Structure::E_cost")],["annual cost, lifetime cost"])
p('C16','A successful integration accounts for the whole range exactly once',
 "When the adaptive integrator reports success, its result is the sum of accepted estimates of sub-intervals that tile the search range from end to end without gap or overlap; an estimate is accepted only when its two refinement levels agree to the tolerance, and otherwise the interval is halved and both halves are processed. Consequently an integrand every accepted estimate of which is exact is integrated exactly.",
 "all integrands, tolerances, evaluation limits and every subdivision history",
 "Tests integrate a few smooth functions and compare with closed forms.",
 ["maq.cpp","maq.h"],[("adaptive loop","Integration::MAQ"),("region stack","maq_todo records in MAQ")],["integral and success flag"],over=("inputs","histories"))
p('C17','The integrator always stops and never passes failure off as success',
 "Every integration stops, whatever the integrand does: the search calls it at least twice and at most twice as often as the search limit allows, what follows at most three times more than twice the evaluation limit, and the evaluations reported include all of the search. When the permitted evaluations run out before every sub-interval is accepted, or the integrand is undefined at a point of the integration rule, the result is not-a-number flagged unsuccessful; a result flagged successful is never undefined; an integrand that is zero wherever the search looks integrates to zero.",
 "all integrands (including ones that are never finite or never settle), all limits",
 "Tests exercise one failing integrand; termination quantifies over all.",
 ["maq.cpp","maq.h"],[("limits and flags","Integration::MAQ and the search functions"),("evaluation budget","MAQ loop")],["success flag, integral, evaluation count"],over=("inputs","histories"))
p('C18','Every range-search method yields a proper bracket or reports failure',
 "For each of the five search methods, whatever the integrand does, the range handed to the integration satisfies 0 <= start < end <= 1 on the axis t = 1/(1+x), the first interval covers that range and is split at its middle. A search that exhausts its limit seeing only zeros proposes no range, and one that has seen a value above rounding level at one of its probes proposes a range containing that probe.",
 "all five search methods, all integrands, all search limits",
 "Tests drive one or two methods with smooth integrands.",
 ["maq.cpp"],[("search methods","directed_search, binary_subdivision, reverse_binary_subdivision, low_first_reverse_binary_subdivision, scattered_search")],["bracket or failure"],over=("inputs","histories"))
p('C19','Integration settings are kept exactly as last accepted',
 "Tolerance, evaluation limit, search limit and search method each read back as the value last accepted; a tolerance that is not positive or a zero limit is refused and leaves the setting as it was. Setting one never changes another, returning one to its default restores its initial value, a reset restores all four, and every integration uses the values in force when it starts.",
 "every sequence of set, use-default and read operations on any objects",
 "Tests touch a few set/get pairs; the claim is over all histories.",
 ["maq.cpp","maq.h"],[("settings","Integration::IntegrationSettings")],["effective values"],over=("histories","inputs"))
p('C20','Integration statistics account for every call',
 "Each integration adds one to the number of calls and one to exactly one of successes, failures, undefined results and failed searches; it adds the evaluations of its search to the search total and, unless the search failed, those it reports to the integration total, and the maxima never decrease and cover every search and every successful integration. Resetting zeroes every counter, and reading statistics changes none.",
 "every history of integrations and resets",
 "No test reads the statistics.",
 ["maq.cpp","maq.h"],[("statistics","Integration::MAQ, Get/Reset statistics")],["statistics record"],over=("histories","inputs"))
p('C21','Caching is transparent and computes each value once, also concurrently',
 "A cached function or value always returns exactly what the underlying computation would return for that argument at the time, for every argument including ones never seen before, undefined arguments and after the cache was cleared; between clears an argument is computed at most once. When several threads ask for the same value at once, each receives the computed value and never a stale, default or partly written one.",
 "all functions, argument sequences, clear points and thread interleavings",
 "Tests make a few sequential and OpenMP calls; interleavings and histories are unbounded.",
 ["caching.h","caching.cpp"],[("cached function","CachedFunction::operator(), ClearCache"),("cached value","CachedValue::operator(), ClearCache")],["returned values, number of computations"],over=("histories","schedules"))
p('C22','Clearing all caches reaches every live cache and only live ones',
 "After a global clear the next request to every cache object then alive recomputes its value. A cache object that has been destroyed is never touched by a later global clear.",
 "every history of creating, destroying, using and clearing cache objects",
 "Tests clear two caches once.",
 ["caching.h","caching.cpp"],[("registry","Caching::Private::Add_Cache, Remove_Cache, Clear_Caches")],["recomputation after a clear"],over=("histories",))
p('C23','Change and replacement notices reach exactly the registered listeners',
 "A change notice calls the change handler of every listener currently registered on the object, once each, and no other handler; handles given out are distinct for simultaneously registered listeners and removing one removes exactly that listener. Replacing an object calls every listener's replacement handler once with the new object, after which the listeners are registered on the new object in addition to its own listeners and no longer on the old one.",
 "every history of registrations, removals, changes and replacements",
 "Tests register one or two listeners.",
 ["replaceable.h"],[("listener table","Replaceable::add_callbacks, remove_callbacks, notify_change, replace")],["handlers invoked"],over=("histories",))
p('C24','A result read after any input change equals a fresh computation',
 "Whatever was computed before, after any input changes or is replaced (hazard curve, response relationship, fragility, loss function, collapse, demolition or rebuilding cost, membership of a structure), the next read of every dependent rate, demand hazard, component loss and annual cost equals what newly built objects with the current inputs would report.",
 "every input, every dependent result, every history of reads and changes",
 "Tests change one or two inputs of one model and re-read a few results.",
 ["relationships.cpp","relationships.h","comp_group.cpp","structure.cpp","structure.h","functions.cpp","replaceable.h"],[("notification chain","callbacks installed by ProbabilisticFn, IM, EDP, CompoundEDP, CompGroup, Structure"),("setters","IM::SetCollapse, SetDemolition, Structure::setRebuildCost, setDemolitionCost, AddCompGroup, RemoveCompGroup")],["reads after changes"],over=("histories","inputs"))
p('C25','Destroyed objects are never called back',
 "After an object that depends on others (probabilistic curve, intensity, demand, component group, structure) is destroyed, later changes to, or replacements of, the objects it depended on run without touching it, and its remaining siblings still receive their notices.",
 "every dependent kind and every history of creation, destruction, change and replacement",
 "Tests destroy objects only at process end.",
 ["functions.cpp","relationships.cpp","relationships.h","comp_group.cpp","structure.cpp","structure.h"],[("deregistration","destructors of ProbabilisticFn, IM, EDP, CompoundEDP, CompGroup, Structure")],["memory accesses after destruction"],over=("histories",))
p('C26','Bulk queries equal pointwise queries',
 "For every query offered both for one argument and for a list, the list form returns a list of the same length whose i-th entry is the single-argument result for the i-th argument, in order, for lists of any length including empty ones and independently of parallel execution.",
 "all lists of any length, every bulk query",
 "Tests call bulk forms on a few short lists.",
 ["relationships.cpp","structure.cpp"],[("bulk loops","IM::lambda/pCollapse/pDemolition/pRepair(vector), EDP::par_lambda/Mean/MeanLn/Median/SD/SD_ln(vector), Structure::E_cost(vector)")],["result vectors"],over=("inputs","schedules"))
p('C27','The Python core binding forwards every operation unchanged',
 "Every function and class of the binding calls the corresponding library operation on the wrapped object with the arguments in the same order and meaning, and returns its result unchanged: factories build the kind of curve, fragility, loss function or distribution that their options name, and reject unknown options.",
 "all arguments of every bound operation",
 "Regression scripts exercise one model end to end.",
 ["pyslatcore.cpp","pyslatcore.h"],[("factories and wrappers","factory, MakeProbabilisticFn, MakeFragilityFn, MakeLossFn, MakeLogNormalDist, *Wrapper")],["results of bound operations"])
p('C28','Named model objects in the scripting layer are registered and found by name',
 "Defining an object under a name makes exactly that object available to later definitions under that name, without disturbing others; defining a second object of the same kind under a name already taken, or referring to a name never defined, is an error or a reported no-op, never a silent substitution.",
 "every script", "Regression scripts use one naming pattern.",
 ["pyslat.py","SlatInterpreter.py"],[("registries","pyslat.py")],["objects used"],over=("programs",))
p('C29','The diagnostic context is balanced on every path',
 "The stack of diagnostic context entries after any library call, returning normally or by exception, is exactly what it was before, separately for every thread.",
 "every call, including ones that end in an exception",
 "No test examines the context after a failing call.",
 ["context.cpp","context.h"],[("scoped entry","TempContext"),("stack","Context::PushText, PopText")],["context text"],over=("histories","inputs"))
p('C30','Recorders write one line per requested point with the model value',
 "A recorder writes exactly one line for each point of its requested range, in order, containing the value the model reports at that point.",
 "every recorder kind and range","Regression files cover one model.",
 ["pyslat.py","SlatInterpreter.py"],[("recorders","pyslat.py")],["output files"],over=("programs",))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(d) for d in P)+'\n')
