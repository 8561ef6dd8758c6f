"""per-property settings of check.py"""
import fnmatch
LIB = ['functions', 'relationships', 'maq', 'fragility', 'lognormaldist', 'loss_functions', 'comp_group', 'caching', 'structure', 'context']
DEFAULT = dict(srcs=LIB, extra=[], opts={}, hopts={}, budget=120, weight={}, bounded_ok=(), native=True, native_skip=(), native_secs=12, native_iters=4000, native_extra=[], native_flags=())
TRUSTED = [
    'slatvc (this directory): LLVM IR executor, loop summariser and term rewriter; clang 18 front end and mem2reg; z3 and cvc5',
    'double arithmetic is treated as extended real arithmetic (no rounding, overflow or signed zero); integers as mathematical integers',
    'standard and boost headers are replaced by the models in model/include (containers, function objects, shared pointers without reference counts)',
    'OpenMP pragmas are not compiled: loops run sequentially',
]
LET = ['SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X', 'SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX']
FATES = ['SLAT::IM::pCollapse', 'SLAT::IM::pDemolition', 'SLAT::IM::pRepair']
GROUP_COST = ['SLAT::CompGroup::E_cost_IM_calc', 'SLAT::CompGroup::SD_ln_cost_IM_calc']
PLAN = {
    'C18': dict(opts=dict(maq=False, houdini=True, nameflags=True, nomerge=('SLAT::Integration::', 'bracket(')), budget=500),
    'C17': dict(opts=dict(maq=False, houdini=True, nomerge=('SLAT::Integration::', 'search('), terminate=True, search=True, blur=('SLAT::Integration::',)), hopts={'search_*': dict(search=False, blur=())}, budget=500),
    'C20': dict(opts=dict(maq=False, houdini=True, nomerge=('SLAT::Integration::',), search=True, blur=('SLAT::Integration::',)), hopts={'search_*': dict(search=False, blur=(), nomerge=('SLAT::Integration::', 'account('))}, budget=500),
    'C22': dict(opts=dict(transparent=False)),
    'C25': dict(opts=dict(caches='memo', uf=True), hopts={'structure*': dict(abstract=['SLAT::CompGroup::CostDist_IM', 'SLAT::Structure::TotalCost', 'SLAT::IM::pCollapse', 'SLAT::IM::pDemolition', 'SLAT::IM::pRepair'])}, native_flags=('-fsanitize=address', '-fno-omit-frame-pointer')),
    'C24': dict(opts=dict(caches='memo', uf=True), hopts={'structure_*': dict(abstract=['SLAT::CompGroup::CostDist_IM', 'SLAT::Structure::TotalCost', 'SLAT::IM::pCollapse', 'SLAT::IM::pDemolition', 'SLAT::IM::pRepair'])}),
    'C14': dict(opts=dict(contracts=GROUP_COST + FATES, eager=True, let=LET), bounded_ok=('repair0', 'repair_zero', 'repair1', 'repair2', 'repair3')),
    'C26': dict(opts=dict(contracts=['SLAT::Structure::TotalCost'])),
    'C15': dict(opts=dict(contracts=['SLAT::Structure::TotalCost'])),
}
def get(p):
    d = dict(DEFAULT); d.update(PLAN.get(p, {})); return d
def hopts(P, fn):
    """options of one harness"""
    o = dict(P['opts']); n = fn.split('_', 2)[2]
    for k, v in P['hopts'].items():
        if fnmatch.fnmatchcase(n, k): o.update(v)
    return o
