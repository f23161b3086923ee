"""C27: saving and restoring; configurations."""
from checks.c21 import mat
from vf import models

LEVEL = "model_checking"
RULE = (
    "Every recommender is fitted on enumerated matrices, pickled with every protocol before and after fitting, restored (twice), and every scoring route of the original and "
    "the copies is compared; pickling may not change the original. All operation sequences up to the bound over {epoch, save state, load state, pickle round trip, score} are "
    "run on the epoch-wise models and compared with a reference that records the state after each epoch; where a restored object cannot go on it must say so with an error. "
    "Evaluators of every construction are pickled before and after use and must give the same metrics on every small ranking. Every recommender class is built from "
    "its configuration for its defaults and for every single changed option and compared with the constructor; unknown options, foreign configurations and unknown names must be errors."
)
ASSUMPTIONS = ["lightfm, jax, haiku and optax are replaced by stand-ins.",
               "A pickled iALS trainer does not contain the interactions: continuing to train it may be refused, but not answered wrongly. Mult-VAE's saved state holds the network only (not the optimizer), so training on after loading an earlier state is not compared."]
BOUNDS = {"quick": "20 recommender settings x all 2^6 3x2 matrices (rotating 1/4) x protocols 2..5; all sequences of length <=5 over 5 operations for iALS (6 solver/feature variants) BPR and Mult-VAE; all 2^6 ground truths x 8 evaluator constructions; all config classes x every option",
          "thorough": "all 2^9 3x3 matrices; sequences of length <=7"}
CASE_TIMEOUT = 600


def setup():
    models.setup()


def same(a, b):
    import numpy as np
    import scipy.sparse as sps

    if sps.issparse(a):
        a, b = a.toarray(), b.toarray()
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def views(name, rec, X):
    import numpy as np

    n = X.shape[0]
    idx = np.array([n - 1, 0])
    out = {"get_score": rec.get_score(idx), "get_score_remove_seen": rec.get_score_remove_seen(idx)}
    if name in models.HAS_BLOCK:
        out["get_score_block"] = rec.get_score_block(0, n)
        out["get_score_remove_seen_block"] = rec.get_score_remove_seen_block(0, n)
    if name in models.HAS_COLD:
        out["get_score_cold_user"] = rec.get_score_cold_user(X[::-1])
        out["get_score_cold_user_remove_seen"] = rec.get_score_cold_user_remove_seen(X[::-1])
    for m in ("get_user_embedding", "get_item_embedding"):
        if hasattr(rec, m):
            out[m] = getattr(rec, m)()
    for a in ("W", "U", "X_train_all", "n_users", "n_items", "train_epochs"):
        if hasattr(rec, a):
            out[a] = getattr(rec, a)
    return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in out.items()}


def equal_views(ctx, a, b, msg):
    ctx.eq(sorted(a), sorted(b), f"{msg}: attributes")
    for k in a:
        ctx.check(same(a[k], b[k]), lambda: f"{msg}: {k} is {b[k]}, was {a[k]}")


def cases_model(tier):
    def gen():
        for i, name in enumerate(models.SPEC):
            if tier == "thorough":
                for c in range(2 ** 9):
                    yield [name, [3, 3], c]
            else:
                for c in range(2 ** 6):
                    if (c + i) % 4 == 0 or c in (0, 63):
                        yield [name, [3, 2], c]
    return gen


def run_model(ctx, case):
    import copy
    import pickle

    import numpy as np
    import scipy.sparse as sps

    name, shape, c = case
    D = mat(c, shape, 2)
    if name in models.NEEDS_DATA and (D.any(axis=0).sum() < 2 or D.any(axis=1).sum() < 2):
        D = D + np.eye(*shape)
    X = sps.csr_matrix(D)
    rec = models.make(name, X)
    raw = pickle.dumps(rec)
    rec.learn()
    V = views(name, rec, X)
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        msg = f"{name} protocol {proto} X={D.tolist()}"
        blob = pickle.dumps(rec, protocol=proto)
        r1 = pickle.loads(blob)
        equal_views(ctx, V, views(name, r1, X), f"{msg}: restored model")
        r2 = pickle.loads(pickle.dumps(r1, protocol=proto))
        equal_views(ctx, V, views(name, r2, X), f"{msg}: twice restored model")
        ctx.step(2)
    equal_views(ctx, V, views(name, rec, X), f"{name} X={D.tolist()}: pickling changed the model")
    equal_views(ctx, V, views(name, copy.deepcopy(rec), X), f"{name} X={D.tolist()}: deep copy")
    # fitting the restored objects again
    r = pickle.loads(raw)
    r.learn()
    equal_views(ctx, V, views(name, r, X), f"{name} X={D.tolist()}: restored before fitting")
    r1.learn()
    equal_views(ctx, V, views(name, r1, X), f"{name} X={D.tolist()}: restored and fitted again")
    ctx.step(3)
    ctx.outcome(name, tuple(np.asarray(V["get_score"]).ravel()))


OPS = "ESLPV"


def cases_seq(tier):
    def gen():
        import itertools

        for kind in ("cg", "chol", "pp", "feat", "feat-item", "feat-user", "bpr", "vae"):
            for n in range(1, 8 if tier == "thorough" else 6):
                for seq in itertools.product(OPS, repeat=n):
                    # scoring is observed after every step anyway; keep the sequences that need it
                    if seq[-1] == "V" or any(a == b == "V" for a, b in zip(seq, seq[1:])):
                        continue
                    yield [kind, "".join(seq)]
    return gen


_trace = {}


def build(kind):
    import numpy as np
    import scipy.sparse as sps

    X = sps.csr_matrix(np.array([[1.0, 0, 1], [0, 1, 1], [1, 0, 0], [0, 0, 0]]))
    if kind == "bpr":
        return models.make("bprfm", X), X
    if kind == "vae":
        from vf.fake_jax import MON

        MON.mode = "keyed"
        return models.make("multvae", X), X
    kw = {"cg": dict(solver_type="CG"), "chol": dict(solver_type="CHOLESKY"), "pp": dict(solver_type="IALSPP", ialspp_subspace_dimension=1),
          "feat": dict(solver_type="CG", user_features=np.eye(4, 2), item_features=np.eye(3), lambda_user_feature=0.1, lambda_item_feature=0.2),
          "feat-item": dict(solver_type="CHOLESKY", item_features=np.eye(3), lambda_item_feature=0.2),
          "feat-user": dict(solver_type="CG", user_features=np.eye(4, 2), lambda_user_feature=0.1)}[kind]
    return models.make("ials", X, **kw), X


def observe(kind, rec, X):
    import numpy as np

    if kind == "bpr" and rec.trainer.fm.user_embeddings is None:
        return []  # nothing to score with before the first epoch
    if kind == "vae":
        return [np.array(rec.get_score(np.arange(4))), np.array(rec.get_score_cold_user(X[1:]))]
    out = [rec.get_score(np.arange(4)), rec.get_score_block(1, 3)]
    if kind != "bpr":
        out += [rec.get_user_embedding(), rec.get_item_embedding(), rec.get_score_cold_user(X)]
        c = rec.trainer.core_trainer
        out += [c.user_feature_weight, c.item_feature_weight]
    if kind in ("feat", "feat-user"):
        out += [rec.compute_user_embedding_from_features(np.ones((2, 2)))]
    if kind in ("feat", "feat-item"):
        out += [rec.get_score_cold_user_with_item_features(X, np.ones((2, 3)))]
    return [np.array(o) for o in out]


def states(kind):
    """observations after 0, 1, 2, ... epochs of an undisturbed run"""
    if kind not in _trace:
        rec, X = build(kind)
        rec.start_learning()
        t = [observe(kind, rec, X)]
        for _ in range(8):
            rec.run_epoch()
            t.append(observe(kind, rec, X))
        _trace[kind] = t
    return _trace[kind]


def run_seq(ctx, case):
    import pickle

    kind, seq = case
    ref = states(kind)
    rec, X = build(kind)
    rec.start_learning()
    cur, saved, cut, opt = 0, None, False, 0
    nothing = object()
    saved = nothing
    for i, op in enumerate(seq):
        msg = f"{kind} {seq!r} after {seq[:i + 1]!r}"
        if op == "E":
            if kind == "vae":
                rec.run_epoch()
                # the optimizer's state is not part of a saved state
                cur = cur + 1 if cur == opt else None
                opt += 1
            elif cut and kind != "bpr":
                # the interactions are not part of the pickled trainer
                try:
                    rec.run_epoch()
                except (RuntimeError, ValueError, AttributeError):
                    pass
                else:
                    cur += 1
            else:
                rec.run_epoch()
                cur += 1
        elif op == "S":
            rec.save_state()
            saved = cur
        elif op == "L":
            if saved is nothing:
                ctx.raises(RuntimeError, rec.load_state, f"{msg}: nothing was saved")
            else:
                rec.load_state()
                cur = saved
        elif op == "P":
            rec = pickle.loads(pickle.dumps(rec))
            cut = True
        got = observe(kind, rec, X)
        ctx.step()
        if cur is None:
            continue
        ctx.eq(len(got), len(ref[cur]), f"{msg}: number of observations")
        for k, (a, b) in enumerate(zip(ref[cur], got)):
            ctx.check(same(a, b), lambda: f"{msg}: observation {k} is not that of {cur} epochs: {b} expected {a}")
    if cut and kind not in ("bpr", "vae"):
        try:
            v = rec.trainer.compute_loss()
        except (RuntimeError, ValueError, AttributeError):
            pass
        else:
            r2, _ = build(kind)
            r2.start_learning()
            for _ in range(cur):
                r2.run_epoch()
            ctx.check(abs(v - r2.trainer.compute_loss()) < 1e-5, f"{case}: loss {v} of the restored trainer, expected {r2.trainer.compute_loss()}")


def cases_ev(tier):
    def gen():
        for c in range(2 ** 6):
            for k in range(8):
                yield ["ev", c, k]
    return gen


def run_ev(ctx, case):
    import copy
    import pickle

    import numpy as np
    import scipy.sparse as sps
    from irspack.evaluation import Evaluator, EvaluatorWithColdUser

    _, c, k = case
    G = sps.csr_matrix(mat(c, (2, 3), 2))
    X = sps.csr_matrix(np.array([[1.0, 0, 0], [0, 1, 1]]))
    rec = models.make("toppop", sps.csr_matrix(np.array([[1.0, 0, 1], [0, 0, 1]]))).learn()
    mk = [
        lambda: Evaluator(G, cutoff=2, n_threads=1),
        lambda: Evaluator(G, cutoff=1, target_metric="recall", recommendable_items=[0, 2], n_threads=2),
        lambda: Evaluator(G, cutoff=2, target_metric="map", per_user_recommendable_items=[[0, 1], [2]], n_threads=1),
        lambda: Evaluator(G, cutoff=3, masked_interactions=X, n_threads=1, recall_with_cutoff=True),
        lambda: Evaluator(G[1:], offset=1, cutoff=2, mb_size=1, n_threads=1),
        lambda: EvaluatorWithColdUser(X, G, cutoff=2, n_threads=1),
        lambda: EvaluatorWithColdUser(X, G, cutoff=2, masked_interactions=G, mb_size=1, n_threads=1),
        lambda: EvaluatorWithColdUser(X, sps.hstack([G, G[:, :1]], format="csr"), cutoff=2, cold_item_features=np.ones((1, 2)), n_threads=1),
    ][k]
    e0, e = mk(), mk()
    n = 4 if k == 7 else 3

    def use(ev):
        out = [sorted(ev.get_score(rec).items()), sorted(ev.get_scores(rec, [1, 2]).items()), ev.get_target_score(rec)]
        for p in ((0, 1, 2), (2, 0, 1), (1, 1, 0)):
            S = np.array([[float(p[(j + i) % 3]) for j in range(n)] for i in range(1 if k == 4 else 2)])
            if hasattr(ev, "get_score_from_matrix"):
                out.append(sorted(ev.get_score_from_matrix(S).items()))
        return repr(out)

    try:
        want = use(e0)
    except (TypeError, ValueError) as err:
        raise AssertionError(f"{case}: {err}")
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        blob = pickle.dumps(e, protocol=proto)  # pickled before its first use
        fresh = pickle.loads(blob)
        ctx.eq(use(fresh), want, f"{case} protocol {proto}: restored before use")
        ctx.eq(use(fresh), want, f"{case} protocol {proto}: restored, used again")
        again = pickle.loads(pickle.dumps(fresh, protocol=proto))  # and after it
        ctx.eq(use(again), want, f"{case} protocol {proto}: restored after use")
        ctx.step(3)
    ctx.eq(use(copy.deepcopy(e)), want, f"{case}: deep copy")
    ctx.eq(use(e), want, f"{case}: pickling changed the evaluator")
    ctx.outcome(want)


# option -> other values, shared by the recommenders
OTHER = dict(
    alpha=[0.3, 1.7], beta=[0.2], top_k=[1], normalize=[True, False], feature_weighting=["TF_IDF", "BM_25", "NONE"], shrinkage=[2.5], bm25_k1=[0.3], bm25_b=[0.1],
    n_threads=[1, 2], normalize_weight=[True], reg=[0.7], dropout_p=[0.2], l1_ratio=[0.9], positive_only=[False], n_iter=[3], tol=[0.5], n_components=[1, 2],
    alpha0=[0.0, 0.1], nu=[0.0], confidence_scaling=["log"], epsilon=[0.2], init_std=[0.9], solver_type=["CHOLESKY", "CG", "IALSPP"], max_cg_steps=[1],
    ialspp_subspace_dimension=[1], loss_type=["ORIGINAL"], nu_star=[0.5], random_seed=[7], train_epochs=[2], prediction_time_max_cg_steps=[1],
    prediction_time_ialspp_iteration=[1], lambda_user_feature=[0.3], lambda_item_feature=[0.3], feature_warmup_epochs=[1], item_alpha=[1e-3], user_alpha=[1e-3],
    loss=["bpr", "warp"],
)


def classes():
    import inspect

    import irspack.recommenders as R

    out = []
    for n in R.__all__:
        o = getattr(R, n)
        if inspect.isclass(o) and n.endswith("Recommender") and getattr(o, "config_class", None) is not None and not inspect.isabstract(o):
            out.append(n)
    return sorted(out)


def cases_cfg(tier):
    def gen():
        import inspect

        import irspack.recommenders as R

        for n in classes():
            yield [n, None, None]
            par = inspect.signature(getattr(R, n).__init__).parameters
            for p in list(par)[2:]:
                if p in ("user_features", "item_features") or par[p].kind in (par[p].VAR_KEYWORD, par[p].VAR_POSITIONAL):
                    continue
                yield [n, p, "missing"] if p not in OTHER else [n, p, OTHER[p]]
    return gen


def simple(rec):
    import enum

    def s(v):
        return isinstance(v, (int, float, str, bool, type(None), enum.Enum))
    return {k: v for k, v in vars(rec).items() if s(v)}


def run_cfg(ctx, case):
    import json

    import numpy as np
    import scipy.sparse as sps

    import irspack.recommenders as R
    from irspack.recommenders import get_recommender_class

    n, p, vals = case
    cls = getattr(R, n)
    D = np.array([[1.0, 0, 2, 0], [0, 1, 1, 0], [1, 1, 0, 1], [0, 0, 1, 1], [2, 0, 0, 1]])
    X = sps.csr_matrix(D)
    base = {}
    if n in ("TruncatedSVDRecommender", "NMFRecommender") and p != "n_components":
        base["n_components"] = 2

    def pair(kw):
        a = cls(X, **kw)
        b = cls.from_config(X, cls.config_class(**kw))
        ctx.eq(simple(b), simple(a), f"{n}({kw}) from its configuration")
        a.learn()
        b.learn()
        i = np.arange(5)
        ctx.check(same(a.get_score(i), b.get_score(i)), f"{n}({kw}): scores of the model built from the configuration differ")
        c2 = cls.config_class(**json.loads(json.dumps(kw)))
        ctx.eq(c2, cls.config_class(**kw), f"{n}({kw}): configuration from JSON")
        ctx.step()

    if p is None:
        ctx.check(get_recommender_class(n) is cls, f"{n} is not found by its name")
        pair(base)
        ctx.raises(Exception, lambda: cls.config_class(no_such_option=1), f"{n}: unknown option in the configuration")
        ctx.raises(TypeError, lambda: cls(X, no_such_option=1), f"{n}: unknown option in the constructor")
        for m in classes():
            cc = getattr(R, m).config_class
            if not issubclass(cc, cls.config_class):
                ctx.raises(ValueError, lambda: cls.from_config(X, cc()), f"{n} from the configuration of {m}")
        for bad in ("", n.lower(), n + "X", "no"):
            ctx.raises(KeyError, lambda: get_recommender_class(bad), f"name {bad!r}")
        ctx.step(5)
        return
    if vals == "missing":
        ctx.check(p in cls.config_class.model_fields, f"{n}: option {p} cannot be configured")
        return
    for v in [*vals, None]:
        try:
            if v is None:
                cls.config_class(**{p: None})
            cls(X, **base, **{p: v}).learn()
        except Exception:
            continue  # not a value of this recommender
        pair({**base, p: v})


def cases_map(tier):
    def gen():
        for name in models.SPEC:
            yield [name]
    return gen


def run_map(ctx, case):
    import pickle

    import numpy as np
    import scipy.sparse as sps
    from irspack.utils.id_mapping import IDMapper, ItemIDMapper

    name = case[0]
    X = sps.csr_matrix(np.array([[1.0, 0, 2, 0], [0, 1, 1, 0], [1, 1, 0, 1]]))
    rec = models.make(name, X).learn()
    users, items = ["u0", 7, ("t", 1)], ["a", "b", 3, 4.5]
    m = IDMapper(users, items)
    im = ItemIDMapper(items)
    m2, rec2, im2 = pickle.loads(pickle.dumps((m, rec, im)))
    for u in users:
        for cut in (1, 3):
            ctx.eq(m2.recommend_for_known_user_id(rec2, u, cutoff=cut), m.recommend_for_known_user_id(rec, u, cutoff=cut), f"{name}: user {u}")
    ctx.eq(m2.recommend_for_known_user_batch(rec2, users, cutoff=2), m.recommend_for_known_user_batch(rec, users, cutoff=2), f"{name}: batch")
    if name in models.HAS_COLD:
        for prof in (["a"], ["b", 3], []):
            ctx.eq(im2.recommend_for_new_user(rec2, prof, cutoff=2), im.recommend_for_new_user(rec, prof, cutoff=2), f"{name}: profile {prof}")
    ctx.step(8)


def families(tier):
    return {"models": (cases_model(tier), run_model), "histories": (cases_seq(tier), run_seq), "evaluators": (cases_ev(tier), run_ev), "configurations": (cases_cfg(tier), run_cfg), "mappers": (cases_map(tier), run_map)}
