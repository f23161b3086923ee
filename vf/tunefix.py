"""Scripted recommender, evaluator and sampler for the tuning checks."""
import math

import numpy as np
import scipy.sparse as sps

METRICS = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "catalog_coverage"]
_C = {}


def classes():
    if _C:
        return _C
    import logging

    import optuna

    optuna.logging.set_verbosity(optuna.logging.ERROR)
    from irspack.default_logger import get_default_logger
    from irspack.evaluation import Evaluator
    from irspack.optimization import CategoricalRange, UniformFloatRange, UniformIntegerRange
    from irspack.recommenders.base import BaseRecommender

    get_default_logger().setLevel(logging.CRITICAL)

    class Sampler(optuna.samplers.BaseSampler):
        """Distinct, predictable values per trial number."""

        def infer_relative_search_space(self, study, trial):
            return {}

        def sample_relative(self, study, trial, space):
            return {}

        def sample_independent(self, study, trial, name, dist):
            t = trial.number
            if isinstance(dist, optuna.distributions.CategoricalDistribution):
                return dist.choices[t % len(dist.choices)]
            if isinstance(dist, optuna.distributions.IntDistribution):
                return min(dist.high, dist.low + t)
            return dist.low + (dist.high - dist.low) * ((t + 1) / 64)

    class Rec(BaseRecommender, register_class=False):
        default_tune_range = [UniformFloatRange("a", 0, 1), UniformIntegerRange("b", 1, 60), CategoricalRange("c", ["x", "y", "z"])]
        script = []
        built = []

        def __init__(self, X, a=-1.0, b=-1, c="none", d="default", train_epochs=-1):
            super().__init__(X)
            self.kw = dict(a=a, b=b, c=c, d=d, train_epochs=train_epochs)
            self.X_given = X
            self.trial_number = None
            self.learned = 0
            type(self).built.append(self)

        def _learn(self):
            self.learned += 1

        def learn_with_optimizer(self, evaluator, trial, max_epoch=128, validate_epoch=5, score_degradation_max=5):
            self.opts = (max_epoch, validate_epoch, score_degradation_max)
            self.trial_number = trial.number
            self.outcome, learnt = type(self).script[trial.number]
            self.learned += 1
            if self.outcome == "P":
                trial.report(-99.0 - trial.number, 3)
                raise optuna.TrialPruned()
            if learnt:
                self.learnt_config.update(learnt)

        def get_score(self, ui):
            raise AssertionError("not used")

    class Eval(Evaluator):
        def __init__(self, target="ndcg", cutoff=10):
            super().__init__(sps.csr_matrix(np.eye(2)), cutoff=cutoff, target_metric=target, n_threads=1)
            self.calls = []

        def values(self, model):
            s = model.outcome
            v = float("nan") if s == "N" else s / 8
            r = {m: 100.0 + k + model.trial_number * 16 for k, m in enumerate(METRICS)}
            r[self.target_metric.name] = v
            return r

        def get_score(self, model):
            self.calls.append(model)
            return dict(self.values(model))

        def get_scores(self, model, cutoffs):
            return {f"{k}@{c}": v for c in cutoffs for k, v in self.get_score(model).items()}

        def get_target_score(self, model):
            return self.get_score(model)[self.target_metric.name]

    _C.update(Sampler=Sampler, Rec=Rec, Eval=Eval, optuna=optuna)
    return _C


def new_study(storage=None, name=None):
    c = classes()
    return c["optuna"].create_study(sampler=c["Sampler"](), pruner=c["optuna"].pruners.NopPruner(), storage=storage, study_name=name)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def missing(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


class Run:
    """One tuning history: tune() called once per entry of `calls`."""

    def __init__(self, script, calls, mode="default", fixed=None, target="ndcg", cutoff=10, pre=(), storage=None, suggested_learnt=False, cutoffs=None):
        c = classes()
        self.fixed = dict(fixed or {})
        Rec = type("Rec_", (c["Rec"],), dict(script=script, built=[]), register_class=False)
        self.Rec = Rec
        self.ev = c["Eval"](target, cutoff)
        self.study = new_study(storage)
        self.X = sps.csr_matrix(np.array([[1.0, 0.0], [0.0, 1.0]]))
        self.X2 = sps.csr_matrix(np.array([[1.0, 1.0], [0.0, 1.0]]))
        optuna = c["optuna"]
        for p in pre:
            self.add(p)
        self.n0 = len(self.study.trials)
        kw = {}
        if mode == "custom":
            def suggest(trial):
                r = dict(a=trial.suggest_float("a", 0, 1), b=trial.suggest_int("b", 1, 60))
                if suggested_learnt:
                    r["train_epochs"] = trial.suggest_int("train_epochs", 1, 60)
                return r
            kw["parameter_suggest_function"] = suggest
        self.data = []
        self.dsf = mode == "data"
        if self.dsf:
            def dsf(trial):
                self.data.append(self.X2 if trial.number % 2 else self.X)
                return self.data[-1]
            kw["data_suggest_function"] = dsf
        self.results = []
        for k, n in enumerate(calls):
            if cutoffs is not None:
                self.ev = c["Eval"](target, cutoffs[k])
            self.study = optuna.load_study(study_name=self.study.study_name, storage=storage, sampler=c["Sampler"](),
                                           pruner=optuna.pruners.NopPruner()) if storage is not None else self.study
            try:
                r = Rec.tune(None if self.dsf else self.X, self.ev, study=self.study, n_trials=n, max_epoch=31, validate_epoch=7,
                             score_degradation_max=4, **kw, **self.fixed)
            except Exception as e:
                r = e
            self.results.append(r)
        self.trials = self.study.get_trials(deepcopy=False)

    def add(self, p):
        c = classes()
        optuna = c["optuna"]
        S = optuna.trial.TrialState
        kind, val = p
        D = dict(a=optuna.distributions.FloatDistribution(0, 1), b=optuna.distributions.IntDistribution(1, 60))
        n = len(self.study.trials)
        kw = dict(params=dict(a=0.5 + n / 64, b=20 + n), distributions=D)
        if kind == "C":
            self.study.add_trial(optuna.trial.create_trial(state=S.COMPLETE, value=-val / 8, user_attrs=dict(train_epochs=40 + n), **kw))
        elif kind == "F":
            self.study.add_trial(optuna.trial.create_trial(state=S.FAIL, **kw))
        elif kind == "P":
            self.study.add_trial(optuna.trial.create_trial(state=S.PRUNED, intermediate_values={1: -99.0}, **kw))
        elif kind == "R":
            self.study.ask()
