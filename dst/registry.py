"""Which scenario decides which property."""
import importlib

SCENARIOS = {}

def _reg(name, module, cls, quick, thorough, batch=25, **kw):
    SCENARIOS[name] = dict(module=module, cls=cls, quick=quick, thorough=thorough, batch=batch, kw=kw)

for _p, _q in [("C01", 4000), ("C02", 4000), ("C03", 3500), ("C04", 3500), ("C05", 3500), ("C07", 3500), ("C15", 3000),
               ("C17", 3500), ("C18", 4000), ("C22", 3500), ("C26", 3500)]:
    _reg(_p, "dst.hier", "HierScenario", _q, _q * 40, prop=_p)

_reg("C06", "dst.obs", "ObserverScenario", 12000, 400000, batch=100)
_reg("C08", "dst.cache", "CacheScenario", 9000, 300000, batch=60, prop="C08")
_reg("C09", "dst.cache", "CacheScenario", 9000, 300000, batch=60, prop="C09")

for _p in ("C10", "C11", "C12", "C16", "C20", "C21"):
    _reg(_p, "dst.runs", "OptScenario", 4000, 150000, prop=_p)
_reg("C29", "dst.ridge", "RidgeScenario", 3000, 120000)
_reg("C27", "dst.hier", "HierScenario", 3000, 120000, prop="C27")
_reg("C28", "dst.runs", "OptScenario", 3000, 100000, prop="C28")
_reg("C13", "dst.pool", "PoolScenario", 2500, 100000)
_reg("C14", "dst.save", "SaveScenario", 1200, 100000)
_reg("C23", "dst.scgsim", "ScgScenario", 12000, 500000, batch=100)
_reg("C24", "dst.threads", "ThreadScenario", 800, 60000, batch=1, prop="C24")
_reg("C19", "dst.constraints", "ConstraintScenario", 4000, 200000, batch=1)

def load(prop):
    e = SCENARIOS[prop]
    m = importlib.import_module(e["module"])
    return getattr(m, e["cls"])(**e["kw"])
