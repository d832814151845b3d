"""A separately booted process for C09: reads a plan, disturbs everything its
answers must not depend on, executes the jobs in another order and prints their
digests."""
import json
import sys


def main():
    plan = json.load(sys.stdin)
    from . import core, runner
    from .props import c09
    core.lib()
    runner.limit_memory()
    import warnings
    warnings.simplefilter("ignore")
    res = c09.child(plan)
    json.dump(res, sys.__stdout__)
    return 0


if __name__ == "__main__":
    sys.exit(main())
