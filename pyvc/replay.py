"""Search for a concrete input on which the real function and its specification differ."""
import copy
import importlib
import random
import signal
import time


def resolve(target):
    mod, q = target.split(":")
    o = importlib.import_module(mod)
    for p in q.split("."):
        o = getattr(o, p)
    return o


def outcome(f, args):
    try:
        return ("return", f(*args), args)
    except SystemExit as e:
        return ("raise", "SystemExit", args)
    except RecursionError:
        return ("undecided", None, args)
    except Exception as e:
        return ("raise", type(e).__name__, args)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:
        return True


def differs(real, spec, args):
    x = outcome(real, copy.deepcopy(args))
    y = outcome(spec, copy.deepcopy(args))
    if "undecided" in (x[0], y[0]):
        return None
    if x[0] != y[0] or not same(x[1], y[1]):
        return {"args": repr(args), "real": repr(x[:2])[:2000], "contract": repr(y[:2])[:2000]}
    if not same(list(x[2]), list(y[2])):
        return {"args": repr(args), "arguments after real": repr(x[2])[:2000], "arguments after contract": repr(y[2])[:2000]}
    return None


def default_gen(con):
    vals = {
        "V": [None, True, False, 0, 1, -1, 255, 256, 1.5, "", "a", "A.B", "[]", [], [1], ["a"], {}, {"a": 1}],
        "i": [0, 1, -1, 2, 7, 8, 255, 256, 65535, 65536],
        "s": ["", "a", "A", "a.b", "A.B.C", "x[]", "[]", "0x1F", "12", "Row[1,3]", "*", "x,y", "_a", "Ab1"],
        "b": [True, False],
        "r": [0.0, 1.5, -2.0],
    }
    ks = [vals.get(t) for t in con.params.values() if isinstance(t, str)]
    if len(ks) != len(con.params) or any(k is None for k in ks):
        return None
    return lambda rng: tuple(rng.choice(k) for k in ks)


def search(con, model, seconds):
    real, spec = resolve(con.target), con.spec
    gen = con.gen or default_gen(con)
    cands = []
    if model and all(not (isinstance(v, tuple) and v == ("unknown",)) for v in model.values()):
        cands.append(tuple(model[n] for n in con.params))

    def ok(args):
        try:
            return con.requires is None or bool(con.requires(*copy.deepcopy(args)))
        except Exception:
            return False

    rng = random.Random(1)
    end = time.time() + seconds
    i = 0
    signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(int(seconds) + 5)
    try:
        while time.time() < end and i < 200000:
            args = cands[i] if i < len(cands) else (gen(rng) if gen else None)
            i += 1
            if args is None:
                break
            if not ok(args):
                continue
            d = differs(real, spec, args)
            if d:
                return d
    except TimeoutError:
        return None
    finally:
        signal.alarm(0)
    return None
