"""GraphQL export."""
from graphql import build_schema
from graphql.type import GraphQLObjectType

from . import gen
from .common import export, write_files
from .models import base, model, walk

INT = {"int8", "uint8", "int16", "uint16", "int32"}


def scalar(dt):
    b = base(dt)
    if b in INT:
        s = "Int"
    elif b == "boolean":
        s = "Boolean"
    elif b == "string":
        s = "String"
    else:
        s = "Float"
    return f"[{s}]" if dt.endswith("[]") else s


def camel_back(s):
    """FooBarBAZ2 -> fooBarBaz2, words split at lower/digit->Upper and Upper->Upper+lower"""
    out = []
    words = []
    cur = ""
    for i, c in enumerate(s):
        prev = s[i - 1] if i else ""
        nxt = s[i + 1] if i + 1 < len(s) else ""
        up = "A" <= c <= "Z"
        if cur and up and (prev.islower() or prev.isdigit() or ("a" <= nxt <= "z")):
            words.append(cur)
            cur = ""
        cur += c
    words.append(cur)
    for i, w in enumerate(words):
        w = w.lower()
        out.append(w if i == 0 or not ("a" <= w[0] <= "z") else w[0].upper() + w[1:])
    return "".join(out)


def expected(m, extra):
    types = {}
    for f, n in walk(m.root):
        d = m.rdata[f]
        is_leaf = "datatype" in d
        if not is_leaf and not n.kids:
            continue
        fields = {}
        desc = d["description"]
        dep = d.get("deprecation")
        if is_leaf:
            fields["value"] = (scalar(d["datatype"]), "Value: " + desc, dep)
            fields["timestamp"] = ("String", "Timestamp: " + desc, dep)
            for nm, dd in extra:
                fields[nm] = ("String", f" {dd}: {desc}", dep)
            if d.get("unit"):
                fields["unit"] = ("String", "Unit of " + desc, dep)
        else:
            for c in n.kids:
                cd = m.rdata[f"{f}.{c.name}"]
                if c.kids or "datatype" in cd:
                    fields[camel_back(c.name)] = (f"{f}.{c.name}".replace(".", "_"), cd["description"], cd.get("deprecation"))
        types[f.replace(".", "_")] = (desc, fields)
    return types


def usable(m):
    """GraphQL can express the model: no two fields or types of the same name, no branch without fields in the end"""
    names = set()
    for f, n in walk(m.root):
        d = m.rdata[f]
        t = f.replace(".", "_")
        if t in names or t in ("Query", "Int", "Float", "String", "Boolean"):
            return False
        names.add(t)
        kids = [c for c in n.kids if c.kids or "datatype" in m.rdata[f"{f}.{c.name}"]]
        if n.kids and not kids or (not n.kids and f == m.root.name):
            return False
        cb = [camel_back(c.name) for c in kids]
        if len(cb) != len(set(cb)):
            return False
    return True


def norm(s):
    # leading/trailing blank lines and line ends are not preserved by GraphQL descriptions
    return None if s is None else " ".join(s.split())


def one(ctx, rng):
    m = model(rng, types=0, numeric=True)
    if not usable(m):
        return
    extra = rng.sample([("source", "Source System"), ("privacy", "Who may see it"), ("x1", "d")], rng.randint(0, 2))
    raw = [x for n, de in extra for x in (rng.choice(["-g", "--gql-fields"]), f"{n},{de}")]
    d = ctx.newdir()
    write_files(d, m.files)
    r = export("graphql", d, "out.graphql", raw=raw)
    inp = {"files": m.files, "options": raw}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("graphql export of a valid model fails", {"input": inp, "observed": repr(r)})
    text = (d / "out.graphql").read_text()
    try:
        schema = build_schema(text)
    except Exception as e:
        ctx.violation("the GraphQL schema is not well-formed", {"input": inp, "observed": text[:1500], "error": str(e)})
        return
    exp = expected(m, extra)
    got = {}
    for n, t in schema.type_map.items():
        if n.startswith("__") or n == "Query" or not isinstance(t, GraphQLObjectType):
            continue
        got[n] = (norm(t.description), {k: (str(v.type), norm(v.description), norm(v.deprecation_reason)) for k, v in t.fields.items()})
    exp = {n: (norm(de), {k: (a, norm(b), norm(c)) for k, (a, b, c) in fs.items()}) for n, (de, fs) in exp.items()}
    ctx.check(exp == got, "the GraphQL schema differs from the model",
              lambda: {"input": inp, "difference": [(k, exp.get(k), got.get(k)) for k in list(exp) + list(got) if exp.get(k) != got.get(k)][:4]})
    q = schema.query_type
    ok = q is not None and list(q.fields) == ["vehicle"] and str(q.fields["vehicle"].type) == m.root.name
    ctx.check(ok, "the query does not give the root", lambda: {"input": inp, "observed": text[:600]})
    order = [list(fs) for _, fs in exp.values()]
    ctx.check(order == [list(got[n][1]) for n in exp], "fields come in another order", lambda: {"input": inp, "observed": text[:1500]})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
