"""All contracts.  Each names the real function, its specification and the properties that rest on it."""
import z3

from pyvc.core import *  # noqa
from pyvc.engine import Contract
from pyvc.models import Env
from pyvc.engine import *  # noqa
from pyvc.values import *  # noqa

MODULES = ["specs.c_datatypes", "specs.c_model", "specs.c_tree", "specs.c_load", "specs.c_export", "specs.c_export2", "specs.c_samm", "specs.c_native"]


def build():
    """a fresh environment with every contract of the repository's current tree; contracts whose function is gone are listed"""
    import importlib

    from . import objects

    env = Env()
    objects.install(env)
    missing = []
    for m in MODULES:
        mod = importlib.import_module(m)
        mod.register(env, missing)
    return env, missing


def add(env, missing, target, spec, params, props, **kw):
    c = Contract(target, spec, params, props=props.split(), **kw)
    if c.mode == "opaque" and spec is not None:
        names = spec.__code__.co_varnames[: spec.__code__.co_argcount + spec.__code__.co_kwonlyargcount]
        assert set(c.params) <= set(names), (target, names)
    mod, q = target.split(":")
    try:
        node = env.nested(c) if c.free else env.block(c) if "#" in q else env.module(mod).index.get(q)
    except Exception as e:
        missing.append((c, f"module {mod}: {type(e).__name__}: {e}"))
        return None
    if node is None:
        missing.append((c, "the function is not there"))
        return None
    env.add_contract(c)
    return c


def split_by(*preds):
    """the proof distinguishes every combination of these predicates over the parameters"""

    def h(eng, st, params):
        from pyvc.interp import bterm

        conds = [TRUE]
        for p in preds:
            f = eng.env.func_of(p)
            outs = eng.explore(st, lambda s: eng.truth(s, eng.inline(s, f, list(params.values()), {})))
            yes = []
            for s, c in outs:
                if c[0] != "ok":
                    raise Unsupported("case predicate that raises")
                yes.append(zand([t for tag, t in s.facts[len(st.facts):] if tag == "pc"] + [bterm(c[1])]))
            y = simp(zor(yes))
            conds = [zand([a, b]) for a in conds for b in (y, z3.Not(y))]
        return conds

    return h
