"""The command line in front of every contract: what `vspec export FORMAT ARGS` hands to the export function.

The contracts of the export functions hold for every value of their parameters; which value a parameter gets is
decided by the option declarations (click), which are data, not code a verifier sees.  So they are evaluated: for each
command a fixed table says which option spelling sets which parameter to what, what it is when the option is absent,
and what is refused.  The table is finite and walked completely (each option absent, each spelling, repeated, in both
orders); combinations of options are sampled."""
from __future__ import annotations

from pathlib import Path

from oracles.common import Undecided  # noqa: F401

CORE = ["type", "description", "comment", "deprecation", "constUID", "fka", "delete", "instances", "datatype", "unit", "min", "max",
        "allowed", "default", "arraysize", "aggregate", "instantiate"]

MULTI = "multi"  # repeated, collected in order
FLAG = "flag"
PATH = "path"
TEXT = "text"
INT = "int"

# parameter -> (kind, [spellings], [spellings of "no"], default)
OPTS = {
    "vspec": ("infile", ["--vspec", "-s"], [], None),
    "output": (PATH, ["--output", "-o"], [], None),
    "include_dirs": (MULTI, ["--include-dirs", "-I"], "dir", ()),
    "extended_attributes": (MULTI, ["--extended-attributes", "-e"], "attr", ()),
    "strict": (FLAG, ["--strict"], ["--no-strict"], False),
    "aborts": (MULTI, ["--aborts", "-a"], "abort", ()),
    "uuid": (FLAG, ["--uuid"], ["--no-uuid"], False),
    "expand": (FLAG, ["--expand"], ["--no-expand"], True),
    "overlays": (MULTI, ["--overlays", "-l"], "file", ()),
    "quantities": (MULTI, ["--quantities", "-q"], "file", ()),
    "units": (MULTI, ["--units", "-u"], "file", ()),
    "types": (MULTI, ["--types", "-t"], "file", ()),
    "types_output": (PATH, ["--types-output"], [], None),
    "extend_all_attributes": (FLAG, ["--extend-all-attributes"], ["--no-extend-all-attributes"], False),
    "pretty": (FLAG, ["--pretty"], ["--no-pretty"], False),
    "validate_static_uid": (PATH, ["--validate-static-uid"], [], None),
    "validate_only": (FLAG, ["--validate-only"], [], False),
    "case_sensitive": (FLAG, ["--case-sensitive"], [], False),
    "package": (TEXT, ["--package"], [], "vss"),
    "short_names": (FLAG, ["--short-names"], ["--no-short-names"], True),
    "no_additional_properties": (FLAG, ["--no-additional-properties"], [], False),
    "require_all_properties": (FLAG, ["--require-all-properties"], [], False),
    "gql_fields": (MULTI, ["--gql-fields", "-g"], "word", ()),
    "all_idl_features": (FLAG, ["--all-idl-features"], [], False),
    "franca_vss_version": (TEXT, ["--franca-vss-version"], [], None),
    "attr": (MULTI, ["--attr"], "word", ()),
    "types_out_dir": ("outdir", ["--types-out-dir"], [], None),
    "static_uid": (FLAG, ["--static-uid"], [], False),
    "add_optional": (FLAG, ["--add-optional"], [], False),
    "output_dir": ("outdir", ["--output-dir"], [], None),
    "apigear_template_unreal_path": ("indir", ["--apigear-template-unreal-path"], [], None),
    "apigear_template_cpp_path": ("indir", ["--apigear-template-cpp-path"], [], None),
    "apigear_template_qt5_path": ("indir", ["--apigear-template-qt5-path"], [], None),
    "apigear_template_qt6_path": ("indir", ["--apigear-template-qt6-path"], [], None),
    "target_folder": ("outdir", ["--target-folder", "-tf"], [], "vss_ttls"),
    "output_namespace": (TEXT, ["--target-namespace", "-tns"], [], "com.covesa.vss.spec"),
    "split": (FLAG, ["--split", "-spl"], ["--no-split"], True),
    "split_depth": (INT, ["--split-depth", "-spld"], [], 1),
    "signals_file": ("infile", ["--signals-file", "-sigf"], [], None),
}

BASE = ["vspec", "include_dirs", "extended_attributes", "strict", "aborts", "overlays", "quantities", "units"]
FULL = BASE + ["output", "types", "uuid", "expand"]

COMMANDS = {
    "apigear": BASE + ["types", "uuid", "output_dir", "apigear_template_unreal_path", "apigear_template_cpp_path",
                       "apigear_template_qt5_path", "apigear_template_qt6_path"],
    "binary": BASE + ["output", "uuid"],
    "csv": FULL + ["types_output"],
    "ddsidl": BASE + ["output", "types", "uuid", "all_idl_features"],
    "franca": BASE + ["output", "uuid", "franca_vss_version"],
    "go": BASE + ["output", "types", "package", "short_names"],
    "graphql": BASE + ["output", "gql_fields"],
    "id": FULL + ["validate_static_uid", "validate_only", "case_sensitive"],
    "json": FULL + ["types_output", "pretty", "extend_all_attributes"],
    "jsonschema": FULL + ["extend_all_attributes", "pretty", "no_additional_properties", "require_all_properties"],
    "protobuf": BASE + ["output", "types", "types_out_dir", "static_uid", "add_optional"],
    "samm": BASE + ["types", "types_output", "uuid", "target_folder", "output_namespace", "split", "split_depth", "signals_file"],
    "tree": FULL + ["attr"],
    "yaml": FULL + ["types_output", "extend_all_attributes"],
}
NOT_REQUIRED = {"tree": {"output"}}

ALL = list(COMMANDS)
# property -> (commands, options or None for all of the command's)
SCOPE = {
    "C01": (ALL, ["overlays", "types"]),
    "C02": (ALL, ["vspec", "include_dirs"]),
    "C05": (ALL, ["expand"]),
    "C08": (ALL, ["units", "quantities"]),
    "C09": (ALL, ["types"]),
    "C12": (ALL, ["strict", "aborts", "extended_attributes"]),
    "C13": (["json", "yaml"], None),
    "C14": (ALL, ["uuid"]),
    "C15": (["id"], None),
    "C16": (["id"], ["validate_static_uid", "validate_only", "case_sensitive"]),
    "C17": (["binary"], None),
    "C19": (["csv"], None),
    "C20": (["protobuf"], None),
    "C21": (["go"], None),
    "C22": (["jsonschema"], None),
    "C23": (["graphql"], None),
    "C24": (["ddsidl"], None),
    "C25": (["franca", "tree"], None),
    "C27": (["apigear"], None),
    "C28": (["samm"], None),
}


def norm(v):
    if isinstance(v, Path):
        return str(v)
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    return v


class Line:
    """an argument vector with the parameters it must give"""

    def __init__(self, cmd, d):
        self.cmd, self.d, self.pre, self.argv, self.exp = cmd, d, [], [], {}
        for o in COMMANDS[cmd]:
            kind, _s, _n, default = OPTS[o]
            self.exp[o] = default
        for o in ("vspec", "output", "output_dir"):
            if o in COMMANDS[cmd] and o not in NOT_REQUIRED.get(cmd, ()):
                self.set(o, OPTS[o][1][0])

    def set(self, o, spelling, no=False, k=0):
        kind, yes, extra, _d = OPTS[o]
        if kind == FLAG:
            self.argv.append(spelling)
            self.exp[o] = not no
            return
        v = self.value(kind, extra, k)
        self.argv += [spelling, str(v)]
        self.exp[o] = self.exp[o] + (v,) if kind == MULTI else v

    def value(self, kind, extra, k):
        if kind == MULTI:
            if extra == "dir":
                return str(self.d / f"dir{k}")
            if extra == "file":
                return str(self.d / f"file{k}.vspec")
            if extra == "abort":
                return ["unknown-attribute", "name-style"][k % 2]
            return f"word{k}"
        if kind == "infile":
            return str(self.d / f"file{k}.vspec")
        if kind == "indir":
            return str(self.d / f"dir{k}")
        if kind == "outdir":
            return str(self.d / f"out{k}")
        if kind == PATH:
            return str(self.d / f"file{k}.vspec")
        if kind == INT:
            return k + 2
        return f"text{k}"


def command(name):
    import click
    from vss_tools.vspec.cli import cli

    c = click.Context(cli)
    group = cli.get_command(c, "export")
    if group is None:
        return None
    return group.get_command(click.Context(group), name)


def parse(name, argv):
    """(params, None) or (None, refusal)"""
    import click

    cmd = command(name)
    if cmd is None:
        return None, "no such command"
    try:
        with cmd.make_context(name, list(argv)) as c:
            return {k: norm(v) for k, v in c.params.items()}, None
    except click.exceptions.UsageError as e:
        return None, f"refused: {type(e).__name__}: {e.format_message()}"


def run(ctx):
    if ctx.prop not in SCOPE:
        return
    commands, only = SCOPE[ctx.prop]
    d = ctx.newdir()
    for k in range(4):
        (d / f"dir{k}").mkdir()
        (d / f"file{k}.vspec").write_text("{}\n")

    def good(line, focus, what):
        ctx.count((line.cmd, tuple(line.argv)), part="command lines")
        got, bad = parse(line.cmd, line.argv)
        argv = [a.replace(str(d), "DIR") for a in line.argv]
        ctx.check(bad is None, f"export {line.cmd}: {what}: refused", lambda: {"argv": argv, "error": bad})
        for o in focus:
            if o not in got or got[o] != norm(line.exp[o]):
                ctx.check(False, f"export {line.cmd}: parameter {o} for {what}",
                          lambda: {"argv": argv, "got": repr(got.get(o, "<absent>")), "expected": repr(norm(line.exp[o]))})

    def refused(cmd, argv, what):
        ctx.count((cmd, tuple(argv)), part="command lines")
        got, bad = parse(cmd, argv)
        ctx.check(bad is not None, f"export {cmd}: {what}: accepted",
                  lambda: {"argv": [a.replace(str(d), "DIR") for a in argv]})

    for cmd in commands:
        opts = [o for o in COMMANDS[cmd] if only is None or o in only]
        if not opts:
            continue
        good(Line(cmd, d), opts, "no optional argument")
        for o in opts:
            kind, yes, extra, default = OPTS[o]
            required = o in ("vspec", "output", "output_dir") and o not in NOT_REQUIRED.get(cmd, ())
            if required:
                line = Line(cmd, d)
                i = line.argv.index(yes[0])
                refused(cmd, line.argv[:i] + line.argv[i + 2:], f"{yes[0]} missing")
            for s in yes:
                line = Line(cmd, d)
                line.set(o, s, k=1)
                good(line, opts, s)
            if kind == FLAG:
                for s in extra:
                    line = Line(cmd, d)
                    line.set(o, s, no=True)
                    good(line, opts, s)
                    line = Line(cmd, d)
                    line.set(o, yes[0])
                    line.set(o, s, no=True)
                    good(line, opts, f"{yes[0]} {s}")
            if kind == MULTI:
                for ks in ((0, 1), (1, 0), (1, 0, 1), (3, 1, 2, 0)):
                    line = Line(cmd, d)
                    for i, k in enumerate(ks):
                        line.set(o, yes[i % len(yes)], k=k)
                    good(line, opts, " ".join([yes[0]] * len(ks)))
                base = Line(cmd, d).argv
                if extra == "file":
                    refused(cmd, base + [yes[0], str(d / "absent.vspec")], f"{yes[0]} of an absent file")
                    refused(cmd, base + [yes[0], str(d / "dir0")], f"{yes[0]} of a directory")
                if extra == "dir":
                    refused(cmd, base + [yes[0], str(d / "absent")], f"{yes[0]} of an absent directory")
                if extra == "abort":
                    refused(cmd, base + [yes[0], "other"], f"{yes[0]} other")
                if extra == "attr":
                    refused(cmd, base + [yes[0], "a,b"], f"{yes[0]} a,b")
                    for c in CORE:
                        refused(cmd, base + [yes[0], c], f"core attribute {yes[0]} {c}")
                    for w in ("source", "Type", "descr", "mint", "x-y", "quality"):
                        line = Line(cmd, d)
                        line.argv += [yes[0], w]
                        line.exp[o] = (w,)
                        good(line, opts, f"{yes[0]} {w}")
            if kind == "infile":
                refused(cmd, [a if a != str(d / "file0.vspec") else str(d / "absent.vspec") for a in Line(cmd, d).argv],
                        f"{yes[0]} of an absent file")
        for _ in range(6 if ctx.tier == "quick" else 60):
            line = Line(cmd, d)
            for _k in range(ctx.rng.randint(2, 8)):
                o = ctx.rng.choice(COMMANDS[cmd])
                kind, yes, extra, _x = OPTS[o]
                if kind == FLAG:
                    s = ctx.rng.choice(yes + extra)
                    line.set(o, s, no=s in extra)
                else:
                    line.set(o, ctx.rng.choice(yes), k=ctx.rng.randint(0, 3))
            good(line, opts, "a combination of options")
    ctx.clean(d)
