"""C07: early stopping over every short validation-score sequence."""
import itertools
import pickle

LEVEL = "model_checking"
RULE = (
    "Every sequence of validation scores over a three-valued ordered alphabet up to the bound, for every validation period, patience, epoch limit "
    "and pruning point of a grid, drives the real early-stopping loop with a trainer whose state is its full epoch history; the sequence of epochs, "
    "validations, reports, the final state and the learnt epoch count are compared with the model.  The same with the real iALS trainer (all "
    "solvers, with and without features) and the BPR and Mult-VAE models: the tuned model must equal one retrained for the learnt number of epochs."
)
ASSUMPTIONS = ["Scores are finite numbers and at least one validation takes place (otherwise training raises).",
               "lightfm and jax/haiku/optax are not installed; deterministic stand-ins with the same calls are used."]
BOUNDS = {"quick": "score sequences up to length 7 over 3 values, period 1-3, patience 1-4; real models validated through every scoring route; larger matrices", "thorough": "length 8, period 1-4, patience 1-5"}
VALS = [-1.0, 0.0, 1.0] + [1.0 + k / 8 for k in range(1, 600)]
CLOSE = [-0.5, 0.5, 0.5 + 1e-12]  # improvements too small for a tolerance or single precision


def setup():
    from vf.load import install

    install()
    from vf import fm_stub

    fm_stub.install()
    from vf import fake_jax

    fake_jax.install()
    import irspack.recommenders  # noqa
    import irspack.evaluation  # noqa


def loop_cases(tier):
    def gen():
        big = tier == "thorough"
        for n in range(1, (9 if big else 8)):
            for seq in itertools.product(range(3), repeat=n):
                for v in (1, 2, 3, 4) if big else (1, 2, 3):
                    for r in sorted({0, v - 1}):
                        if r and n > (6 if big else 4):
                            continue
                        for p in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
                            if n >= 6 and not big and v == 3:
                                continue
                            yield [seq, v, r, p, -1]
                if n <= (6 if big else 4):
                    for k in range(n):
                        for p in (1, 2, 3):
                            for v in (1, 2):
                                yield [seq, v, 0, p, k]
        for n in (20, 65, 130, 257, 520):  # long runs: one peak, a late peak after a plateau, slow climbs
            for at in (0, 1, n // 3, n // 2, n - 2, n - 1):
                for lo, hi in ((0, 1), (1, 0), (1, 1)):
                    seq = [lo] * at + [2] + [hi] * (n - at - 1)
                    for v, p in ((1, 3), (1, 10), (5, 5), (2, n), (1, n // 2)):
                        yield [seq, v, 0, p, -1]
            for p in (1, 5):
                yield [[i // 3 for i in range(n)], 1, 0, p, -1]
                yield [[i // 3 for i in range(n)], 5, 4, p, -1]
                yield [[n - i for i in range(n)], 1, 0, p, -1]
    return gen


_K = {}


def kit():
    if _K:
        return _K
    import numpy as np
    import optuna
    import scipy.sparse as sps

    from irspack.evaluation import Evaluator
    from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping, TrainerBase

    class Trainer(TrainerBase):
        def __init__(self):
            self.hist = []

        def run_epoch(self):
            self.hist.append(len(self.hist) + 1)

        def save_state(self, ofs):
            pickle.dump(self.hist, ofs)

        def load_state(self, ifs):
            self.hist = pickle.load(ifs)

    class Rec(BaseRecommenderWithEarlyStopping, register_class=False):
        trainer_class = Trainer

        def __init__(self, X, train_epochs=7):
            super().__init__(X, train_epochs=train_epochs)
            self.trainers = []

        def _create_trainer(self):
            self.trainers.append(Trainer())
            return self.trainers[-1]

        def get_score(self, idx):
            raise AssertionError

    class Ev(Evaluator):
        """Scores by epoch; remembers when it was asked."""

        def __init__(self, scores):
            super().__init__(sps.csr_matrix(np.eye(2)), cutoff=2, n_threads=1)
            self.scores = scores
            self.asked = []

        def epoch_of(self, model):
            return len(model.trainer.hist)

        def get_target_score(self, model):
            e = self.epoch_of(model)
            self.asked.append(e)
            return self.scores.get(e, -50.0)

        def get_score(self, model):
            return {self.target_metric.name: self.get_target_score(model)}

    class Trial:
        number = 0

        def __init__(self, prune_at):
            self.prune_at = prune_at
            self.reports = []
            self.user_attrs = {}
            self.params = {}

        def report(self, value, step):
            self.reports.append((value, step))

        def should_prune(self):
            return len(self.reports) - 1 == self.prune_at

        def set_user_attr(self, k, v):
            self.user_attrs[k] = v

    _K.update(Trainer=Trainer, Rec=Rec, Ev=Ev, Trial=Trial, X=sps.csr_matrix(np.eye(2)), Pruned=optuna.exceptions.TrialPruned)
    return _K


def model(seq, v, p):
    """(validations made, best epoch)"""
    best, be, bad = None, None, 0
    for i, x in enumerate(seq):
        if best is None or x > best:
            best, be, bad = x, (i + 1) * v, 0
        else:
            bad += 1
            if bad >= p:
                return i + 1, be, True
    return len(seq), be, False


def run_loop(ctx, case):
    loop(ctx, case, VALS)
    if len(case[0]) <= 5:
        loop(ctx, case, CLOSE)


def loop(ctx, case, VALS):
    seq, v, r, p, prune = case
    k = kit()
    maxe = len(seq) * v + r
    ev = k["Ev"]({(i + 1) * v: VALS[s] for i, s in enumerate(seq)})
    tr = k["Trial"](prune)
    rec = k["Rec"](k["X"])
    pruned = False
    ctx.step(maxe)
    try:
        rec.learn_with_optimizer(ev, tr, max_epoch=maxe, validate_epoch=v, score_degradation_max=p)
    except k["Pruned"]:
        pruned = True
    nval, best, stopped = model(seq, v, p)
    can_prune = prune >= 0 and (prune < nval - 1 or (prune == nval - 1 and not stopped))
    if can_prune:
        ctx.check(pruned, f"pruning decision after report {prune} ignored (scores {seq})")
        nval = prune + 1
    elif prune != nval - 1 or not stopped:
        ctx.check(not pruned, f"trial aborted although never pruned (scores {seq}, period {v}, patience {p})")
    at = [(i + 1) * v for i in range(nval)]
    ctx.eq(ev.asked, at, f"epochs validated (scores {seq}, period {v}, patience {p}, limit {maxe}, pruned {prune})")
    want = [(-VALS[seq[i]], (i + 1) * v - 1) for i in range(nval)]
    if stopped and not can_prune:
        ctx.check(tr.reports in (want, want[:-1]), lambda: f"reports {tr.reports}, expected {want} (the one ending the training may be left out)")
    else:
        ctx.eq(tr.reports, want, f"scores reported (scores {seq}, period {v}, patience {p})")
    if pruned:
        ctx.outcome("pruned", nval)
        return
    ran = maxe if not stopped else nval * v
    ctx.eq(len(rec.trainers), 1, "number of trainings started")
    ctx.eq(rec.trainer.hist, list(range(1, best + 1)), f"final state (scores {seq}, period {v}, patience {p}, {ran} epochs run)")
    ctx.eq(rec.learnt_config.get("train_epochs"), best, f"learnt number of epochs (scores {seq}, period {v})")
    again = k["Rec"](k["X"], **rec.learnt_config).learn()
    ctx.eq(again.trainer.hist, rec.trainer.hist, "retrained model")
    ctx.outcome(seq, v, r, p)


def count_cases(tier):
    def gen():
        for n in range(0, 13):
            for how in ("learn", "none", "none_trial"):
                for v in (1, 2, 3, 5):
                    yield ["epochs", n, how, v]
        for a in itertools.product(range(3), repeat=3):
            for b in itertools.product(range(3), repeat=3):
                yield ["twice", a, b]
        for seq in itertools.product(range(3), repeat=4):
            for v in (1, 2):
                for p in (1, 2):
                    for r in (0, 1):
                        yield ["epochs_run", seq, v, p, r]
        for seq in itertools.product(range(3), repeat=4):
            for p in (1, 2):
                yield ["real_trial", seq, p]
    return gen


def run_count(ctx, case):
    k = kit()
    ctx.step()
    if case[0] == "epochs":
        _, n, how, v = case
        rec = k["Rec"](k["X"], train_epochs=n)
        if how == "learn":
            r = rec.learn()
            ctx.check(r is rec, "learn() returns the model")
        else:
            tr = k["Trial"](-1) if how == "none_trial" else None
            rec.learn_with_optimizer(None, tr, max_epoch=n, validate_epoch=v)
        ctx.eq(rec.trainer.hist, list(range(1, n + 1)), f"epochs run without an evaluator ({how})")
    elif case[0] == "twice":
        _, a, b = case
        rec = k["Rec"](k["X"])
        for seq in (a, b):
            ev = k["Ev"]({i + 1: VALS[s] for i, s in enumerate(seq)})
            rec.learn_with_optimizer(ev, None, max_epoch=3, validate_epoch=1, score_degradation_max=2)
            nval, best, _ = model(seq, 1, 2)
            ctx.eq(ev.asked, list(range(1, nval + 1)), "validated epochs of a repeated training")
            ctx.eq(rec.trainer.hist, list(range(1, best + 1)), f"state after training again (scores {a} then {b})")
            ctx.eq(rec.learnt_config["train_epochs"], best, "learnt epochs after training again")
    elif case[0] == "epochs_run":
        _, seq, v, p, r = case
        ran = []
        T = k["Trainer"]

        class Cnt(T):
            def run_epoch(self):
                super().run_epoch()
                ran.append(1)

        class Rec(k["Rec"], register_class=False):
            def _create_trainer(self):
                return Cnt()

        maxe = len(seq) * v + (r if v > 1 else 0)
        ev = k["Ev"]({(i + 1) * v: VALS[s] for i, s in enumerate(seq)})
        Rec(k["X"]).learn_with_optimizer(ev, None, max_epoch=maxe, validate_epoch=v, score_degradation_max=p)
        nval, _, stopped = model(seq, v, p)
        ctx.eq(len(ran), nval * v if stopped else maxe, f"epochs run (scores {seq}, period {v}, patience {p})")
    else:
        import optuna

        _, seq, p = case
        optuna.logging.set_verbosity(optuna.logging.ERROR)
        study = optuna.create_study(pruner=optuna.pruners.NopPruner())
        t = study.ask()
        ev = k["Ev"]({i + 1: VALS[s] for i, s in enumerate(seq)})
        k["Rec"](k["X"]).learn_with_optimizer(ev, t, max_epoch=len(seq), validate_epoch=1, score_degradation_max=p)
        nval, _, stopped = model(seq, 1, p)
        want = {i: -VALS[seq[i]] for i in range(nval)}
        got = dict(study.trials[0].intermediate_values)
        if stopped:
            got[nval - 1] = want[nval - 1]
        ctx.eq(got, want, "intermediate values stored with the trial")
    ctx.outcome(case)


# ------------------------------------------------------------------ real trainers
def real_cases(tier):
    def gen():
        L = 5 if tier == "thorough" else 4
        for kind in ("CG", "CHOLESKY", "IALSPP", "CG+feat", "CHOLESKY+feat", "CG+warm", "CG+original", "bpr", "vae"):
            for seq in itertools.product(range(2), repeat=L):
                for v in (1, 2):
                    yield [kind, seq, v]
    return gen


def run_real(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders.ials import IALSRecommender

    kind, seq, v = case
    k = kit()
    rng = np.random.RandomState(3)
    X = sps.csr_matrix((rng.rand(7, 6) < 0.5) * rng.randint(1, 4, size=(7, 6)).astype(float))
    if kind == "bpr":
        from irspack.recommenders.bpr import BPRFMRecommender

        def make(**kw):
            return BPRFMRecommender(X, n_components=3, n_threads=1, **kw)
    elif kind == "vae":
        from irspack.recommenders.multvae import MultVAERecommender
        from vf.fake_jax import MON

        MON.mode = "keyed"

        def make(**kw):
            return MultVAERecommender(X, dim_z=2, enc_hidden_dims=3, minibatch_size=3, learning_rate=0.02, **kw)
    else:
        kw0 = dict(n_components=3, n_threads=1, alpha0=0.2, solver_type=kind.split("+")[0])
        if "feat" in kind or "warm" in kind:
            kw0.update(user_features=rng.randn(7, 2), item_features=sps.csr_matrix(rng.randn(6, 3)), lambda_user_feature=0.3, lambda_item_feature=0.2,
                       feature_warmup_epochs=2 if "warm" in kind else 0)
        if "original" in kind:
            kw0.update(loss_type="ORIGINAL", confidence_scaling="log", epsilon=0.5)

        def make(**kw):
            return IALSRecommender(X, **kw0, **kw)

    idx = np.arange(7)

    def views(r):
        if kind == "vae":
            return dict(score=r.get_score(idx), cold=r.get_score_cold_user(X[:3]), seen=r.get_score_remove_seen(idx))
        d = dict(user=r.get_user_embedding(), item=r.get_item_embedding(), score=r.get_score(idx), block=r.get_score_block(0, 7),
                 seen=r.get_score_remove_seen(idx))
        if kind != "bpr":
            d["cold"] = r.get_score_cold_user(X[:3])
            d["cold_item"] = r.compute_item_embedding(X[:, :2])
            if "feat" in kind or "warm" in kind:
                d["ifeat"] = r.compute_item_embedding_from_features(np.eye(3))
                d["ufeat"] = r.compute_user_embedding_from_features(np.eye(2))
        return d

    n = [0]

    class Ev(k["Ev"]):
        def epoch_of(self, model):
            n[0] += v
            views(model)  # a real validation scores users
            return n[0]

    ev = Ev({(i + 1) * v: VALS[s] for i, s in enumerate(seq)})
    rec = make()
    rec.learn_with_optimizer(ev, None, max_epoch=len(seq) * v, validate_epoch=v, score_degradation_max=2)
    ctx.step(len(seq) * v)
    _, best, _ = model(seq, v, 2)
    ctx.eq(rec.learnt_config.get("train_epochs"), best, "learnt number of epochs")
    ref = make(train_epochs=best).learn()

    a, b = views(rec), views(ref)
    for name in b:
        ctx.check(np.allclose(a[name], b[name], rtol=1e-5, atol=1e-6),
                  lambda: f"{kind}: {name} after early stopping (scores {seq}, period {v}) differs from a model trained for {best} epochs")
    ctx.outcome(kind, seq, v)


def families(tier):
    return {"loop": (loop_cases(tier), run_loop), "counts": (count_cases(tier), run_count), "real": (real_cases(tier), run_real)}
