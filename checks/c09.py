"""C09: dimension-doubling search over every short assignment of scores."""
import itertools

from vf import tunefix as tf

LEVEL = "model_checking"
RULE = (
    "Every assignment of outcomes (three scores, so that ties and improvements in any order occur, or pruned) to the trials of every dimension, for a "
    "grid of initial/maximal dimensions and trial counts, drives the real tune_doubling_dimension() with scripted training and evaluation; "
    "dimensions, trial counts, search neighbourhoods, the table and the returned parameters are compared with the model."
)
ASSUMPTIONS = ["Every dimension has at least one completed trial (otherwise the search raises).", "Among equally good trials any may be chosen."]
BOUNDS = {"quick": "up to 3 dimensions, up to 5 trials in total, 4 outcomes; longer searches from vf/scale.py", "thorough": "up to 4 dimensions, up to 7 trials in total"}
OUT = [0, 1, 2, "P"]


def setup():
    from vf.load import install

    install()
    tf.classes()
    import irspack.recommenders.ials  # noqa


def dims_of(a, b):
    r = []
    while a <= b:
        r.append(a)
        a *= 2
    return r


CONF = [(2, 2), (2, 3), (2, 4), (1, 4), (3, 12), (4, 7), (5, 20), (8, 31), (8, 32), (6, 11), (6, 12)]


def cases(tier):
    def gen():
        tot = 7 if tier == "thorough" else 5
        confs = CONF + ([(1, 8), (3, 24)] if tier == "thorough" else [])
        for a, b in confs:
            ds = dims_of(a, b)
            for ni, nf in itertools.product((1, 2, 3), (1, 2)):
                n = ni + nf * (len(ds) - 1)
                if n > tot or (len(ds) == 1 and nf == 2):
                    continue
                full = (a, b) in ((2, 4), (1, 4), (4, 7), (1, 8))
                for s in itertools.product(OUT if (n <= 4 or full) else [0, 1, "P"], repeat=n):
                    parts = [s[:ni]] + [s[ni + nf * k: ni + nf * (k + 1)] for k in range(len(ds) - 1)]
                    if any(all(o == "P" for o in p) for p in parts):
                        continue
                    for scale, custom in ((3.0, False), (1.25, True)):
                        if custom and n > 3:
                            continue
                        yield [a, b, ni, nf, s, scale, custom]
        for a, b in ((1, 512), (3, 100), (4, 4096), (16, 1023)):  # many dimensions, many trials each
            ds = dims_of(a, b)
            for ni, nf in ((2, 1), (12, 3), (5, 11)):
                n = ni + nf * (len(ds) - 1)
                for k in (3, 5, 7):
                    s = [[1, 0, "P", 1, 2][i * i % k % 5] if i % 3 else [0, 1][i % k % 2] for i in range(n)]
                    for j in [0] + [ni + nf * q for q in range(len(ds) - 1)]:
                        s[j] = j % 3 % 2
                    yield [a, b, ni, nf, s, 3.0, False]
    return gen


_K = {}


def kit():
    if _K:
        return _K
    import optuna

    from irspack.recommenders.ials import IALSRecommender

    class Rec(IALSRecommender, register_class=False):
        script = {}
        built = []

        def __init__(self, X, **kw):
            super().__init__(X, **kw)
            self.kw = kw
            self.X_given = X
            type(self).built.append(self)

        def _learn(self):
            raise AssertionError("not used")

        def learn_with_optimizer(self, evaluator, trial, max_epoch=0, validate_epoch=0, score_degradation_max=0):
            self.opts = (max_epoch, validate_epoch, score_degradation_max)
            self.key = (self.n_components, trial.number)
            self.outcome = type(self).script[self.key]
            self.trial_number = trial.number
            if self.outcome == "P":
                trial.report(-99.0, 0)
                raise optuna.TrialPruned()
            self.learnt_config["train_epochs"] = self.n_components * 10 + trial.number

    _K.update(Rec=Rec, optuna=optuna)
    return _K


def once(case, seed=7):
    import numpy as np
    import scipy.sparse as sps

    a, b, ni, nf, s, scale, custom = case
    k = kit()
    ds = dims_of(a, b)
    script, i = {}, 0
    for j, d in enumerate(ds):
        for t in range(ni if j == 0 else nf):
            script[(d, t)] = s[i]
            i += 1
    Rec = type("Rec_", (k["Rec"],), dict(script=script, built=[]), register_class=False)
    storage = k["optuna"].storages.InMemoryStorage()
    X = sps.csr_matrix(np.eye(2))
    kw = {}
    if custom:
        kw["suggest_function_initial"] = lambda t: dict(reg=t.suggest_float("reg", 0.5, 0.75), nu=t.suggest_float("nu", 0.1, 0.2, log=True))
    bp, df = Rec.tune_doubling_dimension(
        X, tf.classes()["Eval"](), a, b, storage=storage, study_name_prefix="vf", n_trials_initial=ni, n_trials_following=nf, max_epoch=11,
        validate_epoch=3, score_degradation_max=5, neighborhood_scale=scale, random_seed=seed, **kw)
    return bp, df, Rec, storage, X, script, ds


def run(ctx, case):
    a, b, ni, nf, s, scale, custom = case
    k = kit()
    optuna = k["optuna"]
    bp, df, Rec, storage, X, script, ds = once(case)
    ctx.step(len(s))
    built = Rec.built
    ctx.eq([m.key for m in built], list(script), "trials run, as (dimension, number)")
    for m in built:
        ctx.eq(m.opts, (11, 3, 5), "early-stopping options")
        ctx.check(m.X_given is X, "training data")
    names = sorted(st.study_name for st in storage.get_all_studies())
    ctx.eq(names, sorted(f"vf_{d}" for d in ds), "studies")
    trials = {}
    for j, d in enumerate(ds):
        st = optuna.load_study(study_name=f"vf_{d}", storage=storage)
        ts = st.get_trials(deepcopy=False)
        ctx.eq(len(ts), ni if j == 0 else nf, f"trials of dimension {d}")
        for t in ts:
            trials[(d, t.number)] = t
            if j == 0:
                want = {"reg", "nu"} if custom else {"alpha0", "reg"}
                ctx.eq(set(t.params), want, f"parameters tuned at the initial dimension {d}")
    for j in range(1, len(ds)):
        prev = [(script[(ds[j - 1], t)], t) for t in range(ni if j == 1 else nf) if script[(ds[j - 1], t)] != "P"]
        top = max(v for v, _ in prev)
        cands = [trials[(ds[j - 1], t)] for v, t in prev if v == top][:1]
        okay = False
        for c in cands:
            good = True
            for t in range(nf):
                tr = trials[(ds[j], t)]
                if set(tr.params) != set(c.params):
                    good = False
                    continue
                for p, v in c.params.items():
                    d = tr.distributions[p]
                    good &= (abs(d.low - v / scale) < 1e-12 and abs(d.high - v * scale) < 1e-12 and d.log
                             and v / scale * (1 - 1e-9) <= tr.params[p] <= v * scale * (1 + 1e-9))
            okay |= good
        ctx.check(okay, lambda: f"dimension {ds[j]} is not searched around the best parameters of dimension {ds[j-1]}: best {[c.params for c in cands]}, "
                  f"searched {[trials[(ds[j], t)].distributions for t in range(nf)]} (scores {script}, scale {scale})")
    top = max(v for v in script.values() if v != "P")
    wants = []
    for (d, t), v in script.items():
        if v == top:
            wants.append(dict(trials[(d, t)].params, n_components=d, train_epochs=d * 10 + t))
    ctx.check(bp == wants[0], lambda: f"returned {bp}; best completed trials, in order: {wants} (scores {script})")
    ctx.check(type(bp["n_components"]) is int, "type of n_components")
    # the constructor calls of the trial match what was recorded
    for m in built:
        for p, v in trials[m.key].params.items():
            ctx.eq(m.kw.get(p), v, f"parameter {p} of trial {m.key}")
    ctx.eq(len(df), len(s), "rows of the table")
    for (d, t), o in script.items():
        row = df[(df["n_components"] == d) & (df.index == t)]
        ctx.eq(len(row), 1, f"rows of trial {t} of dimension {d}")
        row = row.iloc[0]
        ctx.eq(row["state"], "PRUNED" if o == "P" else "COMPLETE", f"state of trial {t} of dimension {d}")
        if o != "P":
            ctx.eq((row["value"], row["ndcg@10"], row["train_epochs"]), (-o / 8, o / 8, d * 10 + t), f"row of trial {t} of dimension {d}")
        for p, v in trials[(d, t)].params.items():
            ctx.eq(row[p], v, f"{p} of trial {t} of dimension {d}")
    if len(s) <= 4:
        ctx.step(len(s))
        bp2, df2, Rec2, *_ = once(case)
        strip = [{k_: v for k_, v in m.kw.items()} for m in built]
        ctx.eq([{k_: v for k_, v in m.kw.items()} for m in Rec2.built], strip, "search repeated with the same seed")
        ctx.eq(bp2, bp, "result repeated with the same seed")
    ctx.outcome(sorted(script.items(), key=str), bp["n_components"])


def default_cases(tier):
    def gen():
        for a, b in [(1, 2), (2, 8)]:
            for s in (0, 1):
                yield [a, b, s]
    return gen


def run_default(ctx, case):
    """No storage, default trial counts, real training."""
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import Evaluator
    from irspack.recommenders.ials import IALSRecommender

    a, b, seed = case
    r = np.random.RandomState(seed)
    X = sps.csr_matrix((r.rand(15, 8) < 0.4).astype(float))
    Y = sps.csr_matrix(((r.rand(15, 8) < 0.3) & (X.toarray() == 0)).astype(float))
    ev = Evaluator(Y, cutoff=3, n_threads=1)
    res = []
    for _ in range(2):
        bp, df = IALSRecommender.tune_doubling_dimension(X, ev, a, b, max_epoch=2, random_seed=seed)
        ctx.step(len(df))
        n = df.groupby("n_components").size().to_dict()
        ctx.eq(n, {d: 40 if d == a else 20 for d in dims_of(a, b)}, "default number of trials per dimension")
        m = IALSRecommender(X, n_threads=1, **bp).learn()
        ctx.check(abs(ev.get_score(m)["ndcg"] + df.loc[df["state"] == "COMPLETE", "value"].min()) < 1e-6, "score of the returned parameters")
        res.append((bp, df[["value", "n_components", "alpha0", "reg"]].to_numpy().tolist()))
    ctx.check(str(res[0]) == str(res[1]), "same seed, different search")
    ctx.outcome(case)


def families(tier):
    return {"search": (cases(tier), run), "default": (default_cases(tier), run_default)}
