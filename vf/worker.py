"""Runs one group of one property in this process; writes a JSON result."""
import importlib
import json
import os
import sys


def main():
    prop, group, tier, seed, budget, out = sys.argv[1:7]
    only = sys.argv[7] if len(sys.argv) > 7 and sys.argv[7] != "-" else None
    from vf.core import Ctx
    mod = importlib.import_module("vf.checks." + prop.lower())
    ctx = Ctx(prop, group, tier, int(seed), float(budget), only=only)
    import parallel_control
    root = os.environ.get("VF_REPO", "/repo")
    where = os.path.realpath(list(parallel_control.__path__)[0])
    if where != os.path.realpath(os.path.join(root, "parallel_control")):
        raise SystemExit("wrong package under test: " + where)
    mod.GROUPS[group](ctx)
    with open(out, "w") as f:
        json.dump(ctx.result(), f, default=str)


if __name__ == "__main__":
    main()
