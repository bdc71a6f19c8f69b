import argparse
import importlib
import os
import re
import sys


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    parser.add_argument("--shard")
    parser.add_argument("--out")
    parser.add_argument("--soft-limit", type=float, default=1e9)
    options = parser.parse_args()
    if not re.match(r"^[A-Z][0-9]{2,3}$", options.property):
        parser.error("not a property id")
    os.environ["VERIF_SEED"] = str(options.seed)

    from . import core

    module = importlib.import_module("harness.props.%s" % options.property.lower())
    if options.replay:
        return core.replay_main(options.property, module.COMPONENTS, options.replay)
    if options.shard:
        index, count = map(int, options.shard.split("/"))
        core.shard_main(
            options.property,
            module.COMPONENTS,
            options.tier,
            options.seed,
            index,
            count,
            options.out,
            options.soft_limit,
        )
        return 0
    return core.run_main(
        options.property,
        module.COMPONENTS,
        options.tier,
        options.seed,
        getattr(module, "ASSUMPTIONS", []),
    )


if __name__ == "__main__":
    try:
        status = main()
    except Exception:
        import traceback

        traceback.print_exc()
        status = 2
    sys.exit(status)
