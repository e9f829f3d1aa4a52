"""UUIDs."""
import hashlib
import uuid

from . import gen, instgen, ref
from .common import load, write_files


def v5(ns, name):
    h = bytearray(hashlib.sha1(ns + name.encode("utf-8")).digest()[:16])
    h[6] = (h[6] & 0x0F) | 0x50
    h[8] = (h[8] & 0x3F) | 0x80
    return bytes(h)


OID = uuid.UUID("6ba7b812-9dad-11d1-80b4-00c04fd430c8").bytes
NS = v5(OID, "vehicle_signal_specification")


def one(ctx, rng):
    flat, over, inst = instgen.model(rng, extras=gen.EXTRAS[:2])
    if rng.random() < 0.3:
        f = "Vehicle.Ünïcode" if rng.random() < 0.5 else "Vehicle.lower_case"
        flat[f] = {"type": "sensor", "datatype": "uint8", "description": "x", "constUID": "0x12345678", "fka": ["Vehicle.Old"]}
    root = rng.choice(["Vehicle", "V", "Truck"])
    flat = {root + k[7:]: v for k, v in flat.items()}
    over = {root + k[7:]: v for k, v in over.items()}
    if rng.random() < 0.3:
        k = rng.choice(list(flat))
        if k != root:
            over.setdefault(k, {})["delete"] = True
    files = {"root.vspec": flat}
    overlays = []
    if over:
        files["o.vspec"] = over
        overlays = ["o.vspec"]
    want = rng.random() < 0.8
    expand = rng.random() < 0.8
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", overlays=overlays, uuid=want, expand=expand)
    inp = {"files": files, "overlays": overlays, "uuid": want, "expand": expand}
    ctx.count(inp)
    if not r.ok:
        if not expand:
            return
        ctx.violation("a valid model is rejected", {"input": inp, "observed": repr(r)})
    for n in r.value[0]:
        exp = v5(NS, n["fqn"]).hex() if want else None
        ctx.check(n["uuid"] == exp, "wrong UUID", lambda: {"input": inp, "node": n["fqn"], "expected": exp, "observed": n["uuid"]})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
