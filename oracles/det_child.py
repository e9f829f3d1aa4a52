"""One interpreter (one hash seed) that runs a list of exports.

argv: jobs file.  Each job: {"argv": [...], "cwd": ..., "again": bool}; with "again" the export runs twice in one process
(the second one decides)."""
import json
import sys
import traceback

from . import common


def run(argvs):
    from vss_tools.vspec.cli import cli

    for a in argvs:
        try:
            cli.main(args=a, standalone_mode=True, prog_name="vspec")
        except SystemExit as e:
            if e.code not in (0, None):
                return "exit %r" % (e.code,)
        except Exception:
            return "exc " + traceback.format_exc()[-1500:]
    return "ok"


def main():
    common.quiet()
    import importlib
    import pkgutil

    import vss_tools.vspec.vssexporters as ex

    for m in pkgutil.walk_packages(ex.__path__, ex.__name__ + "."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    jobs = json.load(open(sys.argv[1]))
    out = []
    for j in jobs:
        r = common.Forked(60)(run, j["argvs"])
        out.append(r.value if r.kind == "ok" else repr(r.res))
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
