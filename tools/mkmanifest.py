"""Write MANIFEST.json from the property modules present in dst/props."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C22": "pure function of its arguments: no schedule, clock, fault, I/O or randomness "
           "for a simulator to decide (guide: answer not applicable)",
    "C23": "rendering of one figure from fixed fitted state: no schedule, clock, fault or "
           "randomness involved; a simulator has nothing to decide",
}
NOTE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = os.path.join(HERE, "dst", "props", i.lower() + ".py")
    if os.path.exists(p):
        m = importlib.import_module("dst.props." + i.lower())
        checks.append(dict(
            property=i, quick_cmd="./check %s" % i,
            thorough_cmd="./check %s --tier=thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: "
                      + getattr(m, "TECHNIQUE", "seeded search over histories and faults"),
            level="exploration",
            level_note="Sampled, not exhaustive: every run is one seeded, exactly replayable "
                       "execution of the real library. " + " ".join(
                           a.strip().rstrip(".") + "." for a in getattr(m, "ASSUMPTIONS", []))))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup", hooks=dict(
    guard="none: no hooks were added to the repository", enable="nothing to enable: the "
    "simulator drives the library through numpy bit generators, sys.monitoring events and "
    "patched streams/clocks", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
