"""Developer aid: run N plans of a property and list every violation class.
usage: PYTHONPATH=/verif /opt/venv/bin/python tools/explore.py C01 400 [seed]"""
import sys, collections, json, multiprocessing as mp, time
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from dst import runner, core


def job(a):
    t = time.time()
    r = runner._job(*a)
    if time.time() - t > 15:
        print("SLOW %.1fs" % (time.time() - t), json.dumps(a[1])[:500], flush=True)
    return a[1]["index"], r, a[1]


if __name__ == "__main__":
    pid, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    core.lib()
    c, ex, stats = collections.Counter(), {}, collections.Counter()
    t = time.time()
    with mp.get_context("fork").Pool(8, runner.limit_memory) as p:
        for i, (tag, r), plan in p.imap_unordered(
                job, [(pid, runner.make_plan(pid, seed, i, "quick"))
                      for i in range(n)]):
            if tag == "err":
                k = ("HARNESS", r[-200:])
            else:
                stats.update(r["stats"])
                if not r["viol"]:
                    continue
                k = (r["viol"]["kind"], r["viol"]["key"])
            c[k] += 1
            if k not in ex or len(json.dumps(plan)) < len(json.dumps(ex[k][1])):
                ex[k] = (r if tag == "err" else r["viol"]["msg"], plan)
    for k, v in c.most_common():
        print(v, k, "\n   ", ex[k][0][-600:], "\n    plan", json.dumps(ex[k][1])[:600])
    print(dict(stats))
    print("wall", time.time() - t)
