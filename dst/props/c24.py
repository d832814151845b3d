"""C24: a mixture class is what it was built to be, whatever is built around it."""
import numpy as np

from .. import core, mix
from ..core import Arena, digest, freeze, sim_rng
from ..runner import Violation

ID = "C24"
COUNT = {"quick": 1600, "thorough": 30000}
RULE = ("a run builds two to four mixtures of different classes from random "
        "subsets of their arguments (in the forms the documentation allows), "
        "some sharing one generator, in random order with failing and "
        "interrupted constructions, fits, queries and calls on their weight "
        "models in between; each must report the settings and priors it was "
        "given or the documented defaults, draw weights like the weight model "
        "of its name built from all arguments explicitly, and agree bit for bit "
        "with a twin built from all arguments explicitly that lives alone; "
        "non-trivial when at least one fit was compared; distinct by "
        "(specifications, operations, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words, rewound for the twin)"]
ASSUMPTIONS = ["defaults are those of the documented signatures",
               "faults during construction only (faulted fits are C07, C11, C16)"]

# the arguments of each weighting prior and their documented defaults
WEIGHT = {
    "DirichletDistributionMixture": ("DirichletDistribution",
                                     dict(n=1, alpha=1)),
    "DirichletProcessMixture": ("DirichletProcess", dict(alpha=1)),
    "PitmanYorMixture": ("PitmanYorProcess", dict(pyd=0, alpha=1)),
    "GeometricProcessMixture": ("GeometricProcess", dict(a=1, b=1)),
    "EqualWeightedMixture": ("EqualWeighting", dict(n=1)),
    "FrequencyWeightedMixture": ("FrequencyWeighting", dict(n=1)),
    "BetaInBetaMixture": ("BetaInBeta", dict(x=0, alpha=1, a=1, b=1,
                                             p_method="geometric")),
    "BetaInDirichletMixture": ("BetaInDirichlet", dict(alpha=1, a=0)),
    "BetaBernoulliMixture": ("BetaBernoulli", dict(p=1, alpha=1)),
    "BetaBinomialMixture": ("BetaBinomial", dict(n=0, alpha=1)),
}
BASE = dict(mu_prior=None, lambda_prior=1, psi_prior=None, nu_prior=None,
            total_iter=1000, burn_in=100, subsample_steps=1)


def gen_kw(r, model, dim):
    full = mix.gen_model(r, [model])["kw"]
    if model == "BetaInBetaMixture":
        if full["p_method"] == "inverse-sampling" and r.random() < .8:
            full["p_method"] = "max-likelihood"          # (slow)
        full.setdefault("a", r.choice([1, 2.0]))
        full.setdefault("b", r.choice([1, 2.0]))
    kw = {k: v for k, v in full.items() if r.random() < .6}
    if isinstance(kw.get("alpha"), list) and "n" not in kw:
        kw["n"] = full["n"]
    pri = {}
    if r.random() < .45:
        pri["mu_prior"] = (r.choice([0.5, 2, -1.5]) if dim == 1 and
                           r.random() < .5 else [0.5, -1.0, 2.0][:dim])
    if r.random() < .45:
        pri["lambda_prior"] = r.choice([0.2, 2, 5.0])
    if r.random() < .45:
        pri["psi_prior"] = (r.choice([0.7, 2]) if dim == 1 and
                            r.random() < .5 else
                            [[(1.5 if i == j else .2) for j in range(dim)]
                             for i in range(dim)])
    if r.random() < .45:
        pri["nu_prior"] = dim + r.choice([1, 3, 2.5])
    run = {}
    if r.random() < .7:
        run["total_iter"] = r.choice([3, 5, 9])
        run["burn_in"] = r.randrange(0, run["total_iter"])
    elif r.random() < .5:
        run["burn_in"] = r.choice([0, 3])
    if r.random() < .5:
        run["subsample_steps"] = r.choice([2, 3])
    return kw, pri, run


def gen(r, i, tier):
    models, groups = [], 0
    dim = r.choice([1, 1, 2, 3])
    for k in range(r.choice([2, 2, 3, 4])):
        m = mix.ALL[(i + 3 * k) % 10] if r.random() < .7 else r.choice(mix.ALL)
        kw, pri, run = gen_kw(r, m, dim)
        if models and r.random() < .25:
            g = models[-1]["group"]
        else:
            groups += 1
            g = groups
        models.append(dict(model=m, kw=kw, pri=pri, run=run, group=g,
                           form=r.choice(["list", "array", "array"])))
    data = [mix.gen_data(r, dim=dim) for _ in range(2)]
    if dim == 1 and r.random() < .3:
        data[1] = [[round(x[0]) + .25 * (k % 3)] for k, x in enumerate(data[1])]
    ops, todo, built = [], list(range(len(models))), []
    for _ in range(len(models) + r.choice([2, 3, 5])):
        u = r.random()
        if todo and (not built or u < .5):
            k = todo.pop(0)
            if r.random() < .5:
                ops.append(["bad", k, r.choice(["iter", "kw", "interrupt",
                                                "memory"]),
                            round(r.random(), 4)])
            ops.append(["build", k])
            built.append(k)
            continue
        k = r.choice(built)
        if u < .8:
            if models[k]["model"] in mix.VAR and r.random() < .4:
                ops.append(["varfit", k, r.randrange(2)])
            else:
                ops.append(["fit", k, r.randrange(2), r.random() < .25])
        elif u < .9:
            ops.append(["wm", k])
        else:
            ops.append(["q", k])
    for k in todo:
        ops.append(["build", k])
    for k in range(len(models)):
        ops.append(["fit", k, r.randrange(2), False])
    return dict(models=models, data=data, ops=ops)


def prior(v, form):
    if isinstance(v, list) and form == "array":
        return np.array(v, dtype=float)
    return v


def construct(m, rng, explicit):
    from pyrichlet import mixture_models as mm
    kw = {}
    if explicit:
        kw.update(WEIGHT[m["model"]][1])
        kw.update(BASE)
    kw.update({k: prior(v, m["form"]) for k, v in m["pri"].items()})
    kw.update(m["kw"])
    kw.update(m["run"])
    return getattr(mm, m["model"])(rng=rng, **kw)


def weights_twin(m, rng):
    from pyrichlet import weight_models as wm
    name, kw = WEIGHT[m["model"]]
    return getattr(wm, name)(rng=rng, **dict(kw, **m["kw"]))


def failing(m, how, at, g):
    """a construction that does not succeed; it has its own generator"""
    bad = dict(m, run=dict(m["run"]))
    if how == "iter":
        bad["run"].update(total_iter=3, burn_in=3)
    elif how == "kw":
        bad["run"]["no_such_argument"] = 1
    a = Arena(budget=100_000)
    if how in ("interrupt", "memory"):
        probe = Arena(budget=100_000)
        with probe:
            construct(m, sim_rng(1)[0], False)
        if probe.calls:
            a = Arena(budget=100_000,
                      at_call={1 + int(at * probe.calls): how})
    try:
        with a:
            construct(bad, g, False)
    except (Exception, core.SimBudget) + core.INJECTED:
        pass
    return a


def settings_of(m):
    return (m.total_iter, m.burn_in, m.subsample_steps)


def answers(m, kind, data, o, warm=False):
    if kind == "fit":
        m.fit_gibbs(data, warm_start=warm)
        return mix.gibbs_state(m), freeze(m.gibbs_eap_density()), \
            freeze(m.gibbs_map_cluster())
    kw = {} if o["model"] in mix.HAS_N else dict(n_groups=2)
    m.fit_variational(data, **kw)
    return mix.var_state(m), freeze(m.var_eap_density())


def check_priors(ctx, m, o, y, warm):
    n, d = y.shape
    want = dict(mu_prior=y.mean(axis=0), lambda_prior=1.0,
                psi_prior=np.atleast_2d(np.cov(y.T)), nu_prior=float(d))
    for k, v in o["pri"].items():
        want[k] = np.array(v, dtype=float)
    for k, v in want.items():
        if warm and k not in o["pri"] and k != "lambda_prior":
            continue
        got = np.asarray(getattr(m, k), dtype=float)
        try:
            ok = np.allclose(*np.broadcast_arrays(got, v), rtol=1e-9,
                             atol=1e-12 * (1 + np.abs(v).max())) \
                and got.size == np.size(v)
        except ValueError:
            ok = False
        if not ok:
            raise Violation("prior", "%s: %s is %s, expected %s" % (
                ctx, k, got.tolist(), np.asarray(v).tolist()))


def play(plan, ops, explicit, only, out, lines):
    """-> per model list of results"""
    models, seed = plan["models"], plan["seed"]
    data = [np.array(d, dtype=float) for d in plan["data"]]
    gens = {}
    live, res, dat, fitted = {}, {}, {}, set()
    for j, op in enumerate(ops):
        k = op[1]
        o = models[k]
        if o["group"] not in only:
            continue
        if o["group"] not in gens:
            gens[o["group"]] = sim_rng(core.seed_of("c24", seed, o["group"]))
        g, b = gens[o["group"]]
        ctx = "%s(%s) after %d operations" % (
            o["model"], ", ".join("%s=%r" % kv for p in ("kw", "pri", "run")
                                  for kv in o[p].items()), j)
        r = res.setdefault(k, [])
        if op[0] == "bad":
            if not explicit:
                a = failing(o, op[2], op[3], sim_rng(seed + j)[0])
                mix.count_faults(out, a.fired)
                out.stats["probe:failing constructions"] += 1
                lines[0] += a.lines
            continue
        a = Arena(budget=600_000)
        if op[0] == "build":
            with a:
                live[k] = m = construct(o, g, explicit)
            full = dict(BASE, **o["run"])
            want = (full["total_iter"], full["burn_in"],
                    full["subsample_steps"])
            if settings_of(m) != want:
                raise Violation("settings", "%s: total_iter, burn_in, "
                                "subsample_steps are %s, expected %s"
                                % (ctx, settings_of(m), want))
            lines[0] += a.lines
            continue
        m = live[k]
        if "total_iter" not in o["run"]:
            # the default is checked above; a thousand steps are not needed
            m.total_iter, m.burn_in = 4, 1
        if op[0] == "wm":
            with a:
                wm = m.weight_model
                wm.reset()
                r.append([freeze(wm.random(4)), freeze(wm.tail(.5)),
                          freeze(wm.random_assignment(3))])
        elif op[0] == "q":
            if k in fitted:
                with a:
                    r.append([freeze(m.gibbs_map_density(data[0])),
                              freeze(m.gibbs_eap_affinity_matrix())])
        else:
            warm = op[0] == "fit" and op[3] and dat.get(k) is not None
            y = data[dat[k] if warm else op[2]]
            with a:
                st = answers(m, op[0], y, o, warm)
            r.append(list(st))
            check_priors(ctx, m, o, y, warm)
            if op[0] == "fit":
                dat[k] = data_index = dat[k] if warm else op[2]
                fitted.add(k)
                tot = m.total_iter - m.burn_in
                per = -(-tot // m.subsample_steps)
                if not warm and m.total_saved_steps != per:
                    raise Violation("draws", "%s: a fit on data %d saved %d "
                                    "draws, expected %d" % (
                                        ctx, data_index, m.total_saved_steps,
                                        per))
        lines[0] += a.lines
    return res, live, gens


def law(plan, live, out):
    """the weight model draws like the one of its name, built explicitly"""
    seed = plan["seed"]
    for k, m in sorted(live.items()):
        o = plan["models"][k]
        # (both are built from the same words)
        g, b = sim_rng(seed + 77 + k)
        m2 = construct(o, g, False)
        h, c = sim_rng(seed + 77 + k)
        t = weights_twin(o, h)
        for step in range(3):
            b.set(seed + 100 + step)
            c.set(seed + 100 + step)
            vals = []
            for w in (m2.weight_model, t):
                if step == 1:
                    w.fit([0, 0, 0])
                v = [freeze(w.random(3)), freeze(w.complete(5)),
                     freeze(w.random_assignment(4))]
                vals.append(v)
            if vals[0] != vals[1]:
                raise Violation(
                    "weights", "%s built with %s draws other weights than "
                    "%s(%s): %s" % (o["model"], o["kw"], WEIGHT[o["model"]][0],
                                    dict(WEIGHT[o["model"]][1], **o["kw"]),
                                    mix.first_diff(vals[0], vals[1])))
            if step == 1:
                m2.weight_model.reset()
                t.reset()
        # and so it does when both are given the same seed
        k = seed % 100003 + k
        vals = []
        for w in (construct(o, k, False).weight_model, weights_twin(o, k)):
            v = [freeze(w.random(3)), freeze(w.complete(5))]
            w.fit([0, 1, 0] if w.get_size() > 1 else [0, 0])
            vals.append(v + [freeze(w.random()),
                             freeze(w.random_assignment(4))])
        if vals[0] != vals[1]:
            raise Violation(
                "weights", "%s built with %s and seed %d draws other weights "
                "than %s(%s): %s" % (
                    o["model"], o["kw"], k, WEIGHT[o["model"]][0],
                    dict(WEIGHT[o["model"]][1], **o["kw"]),
                    mix.first_diff(vals[0], vals[1])))
        out.stats["probe:weight laws compared"] += 2


def run(plan, out):
    lines = [0]
    groups = sorted({m["group"] for m in plan["models"]})
    try:
        res, live, _ = play(plan, plan["ops"], False, set(groups), out, lines)
        law(plan, live, out)
        for g in groups:
            alone, _, _ = play(plan, plan["ops"], True, {g}, out, lines)
            for k, want in alone.items():
                if res[k] != want:
                    o = plan["models"][k]
                    raise Violation(
                        "twin", "%s(%s) does not behave like the same mixture "
                        "built alone with every argument given: %s" % (
                            o["model"], dict(o["kw"], **dict(
                                o["pri"], **o["run"])),
                            mix.first_diff(freeze(res[k]), freeze(want))))
                out.stats["probe:twins compared"] += len(want)
    except core.SimBudget:
        return
    out.log.append(freeze([res[k] for k in sorted(res)]))
    for m in plan["models"]:
        out.stats["model:" + m["model"]] += 1
    out.steps = lines[0]
    out.nontrivial = True
    out.sig = digest([plan["models"], plan["ops"]])
    if plan["index"] < 2:
        out.sample = dict(models=plan["models"], ops=plan["ops"])
