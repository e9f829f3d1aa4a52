"""Shared machinery of the bounded oracles.

Every oracle runs the real code of /repo on generated inputs (each evaluation in
a forked child with its own scratch directory, so that no module state leaks
from one evaluation to the next) and compares what it observed with an
independent expectation.  Nothing here is counted as proof: these are the
labelled bounded stand-ins, and the search for a failing input behind a failed
obligation.
"""
from __future__ import annotations

import hashlib
import importlib
import io
import json
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
if str(REPO / "src") not in sys.path:
    sys.path.insert(0, str(REPO / "src"))

import yaml  # noqa: E402


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Undecided(Exception):
    """The observation could not be made (an API the oracle needs is gone)."""


def quiet():
    # imported here so that the forked children start with everything loaded
    for m in ("main", "cli", "vssexporters.vss2json", "vssexporters.vss2binary", "vssexporters.vss2id"):
        try:
            importlib.import_module("vss_tools.vspec." + m)
        except Exception:
            pass
    lg = logging.getLogger("vss-tools")
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    lg.propagate = False
    return lg


class ListHandler(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.out = []

    def emit(self, record):
        try:
            self.out.append((record.levelname, record.getMessage()))
        except Exception:
            self.out.append((record.levelname, str(record.msg)))


class Forked:
    """Run fn(*args) in a forked child; returns ('ok', value) or
    ('exit', code) or ('exc', class name, text) or ('dead', why), plus logs."""

    def __init__(self, timeout=60):
        self.timeout = timeout

    def __call__(self, fn, *args, **kw):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                sys.stdout = io.StringIO()
                sys.stderr = io.StringIO()
                signal.alarm(self.timeout)
                lh = ListHandler()
                lg = logging.getLogger("vss-tools")
                lg.addHandler(lh)
                lg.setLevel("INFO")
                try:
                    res = ("ok", fn(*args, **kw))
                except SystemExit as e:
                    c = e.code
                    if c is None:
                        c = 0
                    elif not isinstance(c, int):
                        c = 1
                    res = ("exit", c)
                except BaseException as e:  # noqa
                    res = ("exc", type(e).__name__, traceback.format_exc()[-2000:])
                data = pickle.dumps((res, lh.out, sys.stdout.getvalue()))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            return Outcome(("dead", f"status {status}"), [], "")
        return Outcome(*pickle.loads(data))


class Outcome:
    def __init__(self, res, logs, out):
        self.kind = res[0]
        self.res = res
        self.logs = logs
        self.out = out

    @property
    def ok(self):
        return self.kind == "ok" or (self.kind == "exit" and self.res[1] == 0)

    @property
    def rejected(self):
        """the run refused the input: a non-zero exit or an exception"""
        return self.kind == "exc" or (self.kind == "exit" and self.res[1] != 0)

    @property
    def value(self):
        return self.res[1]

    def __repr__(self):
        return f"{self.res!r} logs={[m for lv, m in self.logs if lv not in ('INFO', 'DEBUG')][:6]!r}"


forked = Forked()


class Ctx:
    """One oracle run: random source, deadline, counters, samples."""

    def __init__(self, prop, seed, tier, budget, known=()):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.violations = []
        self.known = list(known)
        self.known_hit = {}
        self.notes = []
        self.parts = {}
        self.dir = Path(tempfile.mkdtemp(prefix=f"orc-{prop}-"))

    def close(self):
        shutil.rmtree(str(self.dir), ignore_errors=True)

    def time_left(self):
        return self.deadline - time.time()

    def count(self, inp, nontrivial=True, part=None):
        self.evaluations += 1
        if part:
            self.parts[part] = self.parts.get(part, 0) + 1
        if nontrivial:
            h = hashlib.sha1(repr(inp).encode("utf-8", "surrogatepass")).digest()[:8]
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 5:
                    self.samples.append(short(inp))

    def violation(self, what, detail, key=None):
        """key identifies the failing input/call site for the known-findings file"""
        if key is not None and key in self.known:
            self.known_hit[key] = what
            return
        self.violations.append({"what": what, "detail": detail, "key": key})
        raise Violation(what, detail)

    def check(self, cond, what, detail, key=None):
        if not cond:
            self.violation(what, detail() if callable(detail) else detail, key)

    def newdir(self):
        d = Path(tempfile.mkdtemp(dir=self.dir))
        return d

    def clean(self, d):
        shutil.rmtree(str(d), ignore_errors=True)

    def loop(self, frac_or_n, body, part=None, min_n=3):
        """Repeat body(rng) for a fraction of the budget (float) or n times (int)."""
        n = 0
        if isinstance(frac_or_n, float):
            total = (self.deadline - self.t0) * frac_or_n
            end = min(self.deadline, time.time() + total)
            while n < min_n or time.time() < end:
                body(self.rng)
                n += 1
        else:
            while n < frac_or_n and (n < min_n or time.time() < self.deadline):
                body(self.rng)
                n += 1
        if part:
            self.parts[part] = self.parts.get(part, 0) + n


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, default=repr, sort_keys=False)
    return s if len(s) <= n else s[:n] + "..."


def diff(a, b, limit=8):
    """human-readable difference of two (nested) values"""
    out = []

    def go(x, y, path):
        if len(out) >= limit:
            return
        if isinstance(x, dict) and isinstance(y, dict):
            for k in list(x) + [k for k in y if k not in x]:
                if k not in x:
                    out.append(f"{path}/{k}: unexpected {y[k]!r}")
                elif k not in y:
                    out.append(f"{path}/{k}: missing (expected {x[k]!r})")
                else:
                    go(x[k], y[k], f"{path}/{k}")
        elif isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            for i in range(max(len(x), len(y))):
                if i >= len(x):
                    out.append(f"{path}[{i}]: unexpected {y[i]!r}")
                elif i >= len(y):
                    out.append(f"{path}[{i}]: missing (expected {x[i]!r})")
                else:
                    go(x[i], y[i], f"{path}[{i}]")
        elif type(x) is not type(y) or x != y:
            out.append(f"{path}: expected {x!r}, got {y!r}")

    go(a, b, "")
    return [o[:400] for o in out]


def same(a, b):
    """equality that distinguishes 1/True/1.0"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ---------------------------------------------------------------- files


class NoAlias(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def dump_yaml(data):
    return yaml.dump(data, Dumper=NoAlias, sort_keys=False, default_flow_style=False, allow_unicode=True, width=10**6)


def write_files(d: Path, files: dict):
    """files: relative name -> text or dict"""
    for n, c in files.items():
        p = d / n
        p.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(c, (dict, list)):
            c = dump_yaml(c) if c else ""
        if isinstance(c, bytes):
            p.write_bytes(c)
        else:
            p.write_text(c)


# ---------------------------------------------------------------- running

DEFAULTS = {"delete": False, "instantiate": True, "aggregate": False, "is_instance": False}


def norm_data(d):
    """set attributes only"""
    out = {}
    for k, v in d.items():
        if k == "fqn" or v is None or v == []:
            continue
        if k in DEFAULTS and v is DEFAULTS[k]:
            continue
        if hasattr(v, "value") and not isinstance(v, (int, float)):
            v = v.value
        out[k] = v
    return out


def dump_tree(root):
    """pre-order list of (fqn, data class, normalised data, uuid, parent fqn)"""
    if root is None:
        return None
    out = []

    def path(n):
        return ".".join(x.name for x in n.path)

    def go(n):
        out.append(
            {
                "fqn": path(n),
                "cls": type(n.data).__name__,
                "data": norm_data(n.data.model_dump()),
                "datafqn": n.data.fqn,
                "uuid": n.uuid,
                "parent": path(n.parent) if n.parent is not None else None,
            }
        )
        for c in n.children:
            go(c)

    go(root)
    return out


def _get_trees(d, kw):
    from vss_tools.vspec.main import get_trees

    args = {}
    for k, v in kw.items():
        if k == "vspec":
            args[k] = Path(d) / v
        elif k in ("include_dirs", "quantities", "units", "types", "overlays"):
            args[k] = tuple(Path(d) / x for x in v)
        else:
            args[k] = v
    root, types = get_trees(**args)
    return dump_tree(root), dump_tree(types)


def load(d, **kw):
    """get_trees in a forked child -> Outcome((root dump, types dump))"""
    return forked(_get_trees, d, kw)


def _cli(argv):
    from vss_tools.vspec.cli import cli

    cli.main(args=argv, standalone_mode=True, prog_name="vspec")


def cli(argv, timeout=None):
    """`vspec <argv>` in a forked child"""
    f = forked if timeout is None else Forked(timeout)
    return f(_cli, [str(a) for a in argv])


def export(fmt, d, out, vspec="root.vspec", **kw):
    argv = ["--log-level", "INFO", "export", fmt, "--vspec", d / vspec, "--output", d / out]
    argv += cli_args(d, kw)
    return cli(argv)


def cli_args(d, kw):
    argv = []
    for k, v in kw.items():
        if k == "raw":
            argv += list(v)
            continue
        o = {
            "include_dirs": "--include-dirs",
            "quantities": "--quantities",
            "units": "--units",
            "types": "--types",
            "overlays": "--overlays",
            "extended_attributes": "--extended-attributes",
            "aborts": "--aborts",
        }.get(k)
        if o:
            for x in v:
                argv += [o, (d / x) if k not in ("extended_attributes", "aborts") else x]
        elif isinstance(v, bool):
            argv.append(("--" if v else "--no-") + k.replace("_", "-"))
        elif k in ("types_output",):
            argv += ["--types-output", d / v]
        else:
            argv += ["--" + k.replace("_", "-"), v]
    return [str(a) for a in argv]
