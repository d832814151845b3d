"""python -m dst.replay FILE : re-execute a recorded plan exactly."""
import json
import sys
from . import runner


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    pid = r["property"]
    runner.core.lib()
    runner.limit_memory()
    o = runner.execute(pid, r["plan"])
    if o["viol"] is None:
        print("no violation on replay of %s" % sys.argv[1])
        return 0
    same = (o["viol"]["kind"] == r["violation"]["kind"]
            and r["digest"] in (o["digest"], None))
    print("%s: %s" % (o["viol"]["kind"], o["viol"]["msg"]))
    print("replay identical to recording: %s" % same)
    print("VIOLATION property=%s replay=%s" % (pid, sys.argv[1]))
    return 1 if same else 3


if __name__ == "__main__":
    sys.exit(main())
