"""Independent reference of loading: merge -> tree -> instances -> deletion."""
from __future__ import annotations

import copy
import re

CLS = {
    "branch": "VSSDataBranch",
    "sensor": "VSSDataSensor",
    "actuator": ("VSSDataSensor", "VSSDataActuator"),
    "attribute": "VSSDataAttribute",
    "struct": "VSSDataStruct",
    "property": "VSSDataProperty",
}


class Reject(Exception):
    pass


def merge_val(a, b):
    """b over a, mappings key by key, functional (no sharing)"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = {k: v for k, v in a.items()}
        for k, v in b.items():
            out[k] = merge_val(out[k], v) if k in out else copy.deepcopy(v)
        return out
    return copy.deepcopy(b)


def merge_flat(files):
    """flat specs in load order"""
    out = {}
    for f in files:
        for k, v in f.items():
            out[k] = merge_val(out[k], v) if k in out else copy.deepcopy(v)
    return out


class N:
    __slots__ = ("name", "data", "kids", "inst")

    def __init__(self, name, data, kids=None, inst=False):
        self.name = name
        self.data = data
        self.kids = kids if kids is not None else []
        self.inst = inst

    def child(self, name):
        for c in self.kids:
            if c.name == name:
                return c
        return None

    def clone(self):
        return N(self.name, copy.deepcopy(self.data), [c.clone() for c in self.kids], self.inst)


def build(flat):
    """flat spec -> tree (names missing in between become bare branches)"""
    roots = [k for k in flat if "." not in k]
    if len(roots) != 1:
        raise Reject("roots")
    root = N(roots[0], flat[roots[0]])
    orphans = []
    done = {roots[0]: root}
    for k in sorted(flat, key=lambda s: s.count(".")):
        if k == roots[0]:
            continue
        p, n = k.rsplit(".", 1)
        node = N(n, flat[k])
        if p in done:
            done[p].kids.append(node)
        else:
            orphans.append((k, node))
        done[k] = node
    for k, node in orphans:
        parts = k.split(".")
        if parts[0] != root.name:
            raise Reject("orphan")
        # find deepest existing ancestor
        cur = root
        i = 1
        while i < len(parts) - 1:
            c = cur.child(parts[i])
            if c is None:
                break
            cur = c
            i += 1
        while i < len(parts) - 1:
            c = N(parts[i], {"type": "branch"})
            cur.kids.append(c)
            cur = c
            i += 1
        cur.kids.append(node)
    return root


RANGE = re.compile(r"\[(\d+),(\d+)\]")


def labels(entry):
    """labels of one string entry"""
    ms = RANGE.findall(entry)
    if not ms:
        return [entry]
    m = RANGE.search(entry)
    lo, hi = int(m.group(1)), int(m.group(2))
    if lo > hi:
        raise Reject("range")
    return [entry[: m.start()] + str(i) + entry[m.end():] for i in range(lo, hi + 1)]


def merge_def(dst, src):
    """explicit definition src over the generated node dst"""
    d = dict(dst.data)
    for k, v in src.data.items():
        if v is None or v == []:
            continue
        d[k] = merge_val(d[k], v) if k in d else copy.deepcopy(v)
    dst.data = d
    for c in src.kids:
        m = dst.child(c.name)
        if m is not None:
            merge_def(m, c)
        else:
            dst.kids.append(c)


def is_inst_branch(n):
    return n.data.get("type") == "branch" and n.data.get("instances") not in (None, [], "")


def expand(node):
    if is_inst_branch(node):
        inst = node.data["instances"]
        if isinstance(inst, str):
            inst = [inst]
        keep = [c for c in node.kids if c.data.get("instantiate", True) is False]
        move = [c for c in node.kids if c.data.get("instantiate", True) is not False]
        node.kids = list(keep)
        base = {k: v for k, v in node.data.items() if k != "instances"}
        roots = [node]
        gen = []
        for e in inst:
            if isinstance(e, list):
                names = [x for s in e for x in labels(str(s))]
            else:
                names = labels(str(e))
            new = []
            for nm in names:
                for r in roots:
                    x = N(nm, copy.deepcopy(base), [], True)
                    r.kids.append(x)
                    new.append(x)
            gen += new
            if len(names) > 1 or isinstance(e, list):
                roots = new
        leaves = [g for g in gen if not g.kids]
        add = [c for c in move if node.child(c.name) is None]
        over = [c for c in move if node.child(c.name) is not None]
        for lf in leaves:
            for a in add:
                lf.kids.append(a.clone())
        for o in over:
            merge_def(node.child(o.name), o)
        node.data = base
    for c in node.kids:
        expand(c)


def prune(node):
    """remove deleted subtrees; the root is kept"""
    node.kids = [c for c in node.kids if c.data.get("delete") is not True]
    for c in node.kids:
        prune(c)


def dump(root):
    out = []

    def go(n, path):
        f = f"{path}.{n.name}" if path else n.name
        d = {}
        for k, v in n.data.items():
            if v is None or v == []:
                continue
            if k == "instances":
                v = [v] if isinstance(v, str) else v
            if (k == "delete" or k == "aggregate") and v is False:
                continue
            if k == "instantiate" and v is True:
                continue
            d[k] = v
        if n.inst and n.data.get("type") == "branch":
            d["is_instance"] = True
        out.append({"fqn": f, "data": d, "parent": path or None})
        for c in n.kids:
            go(c, f)

    go(root, "")
    return out


def raw_dump(root):
    """like ref.dump, but keeps None/[] values of user attributes"""
    out = {}

    def go(n, path):
        f = f"{path}.{n.name}" if path else n.name
        d = dict(n.data)
        if isinstance(d.get("instances"), str):
            d["instances"] = [d["instances"]]
        out[f] = d
        for c in n.kids:
            go(c, f)

    go(root, "")
    return out


def loaded(files, do_expand=True, delete=True):
    root = build(merge_flat(files))
    if do_expand:
        expand(root)
    full = dump(root)
    if delete:
        prune(root)
    return full, dump(root), root
