"""Textbook definitions of the ranking metrics, written independently of irspack."""
import math

NAMES = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "catalog_coverage"]
INF = float("inf")


def rank(scores, cutoff, allowed=None, masked=()):
    """Indexes of the top items: score order, ties by index, -inf never."""
    cand = [(-float(s), i) for i, s in enumerate(scores) if s > -INF and i not in masked and (allowed is None or i in allowed)]
    return [i for _, i in sorted(cand)[:cutoff]]


def user_metrics(rec, gt, recall_denom):
    if not rec:
        return dict(hit=0.0, recall=0.0, ndcg=0.0, map=0.0, precision=0.0)
    flags = [i in gt for i in rec]
    h = sum(flags)
    dcg = sum(1 / math.log2(k + 2) for k, f in enumerate(flags) if f)
    idcg = sum(1 / math.log2(k + 2) for k in range(min(len(gt), len(rec))))
    ap = sum(sum(flags[: k + 1]) / (k + 1) for k, f in enumerate(flags) if f) / len(gt)
    return dict(hit=1.0 if h else 0.0, recall=h / recall_denom, ndcg=dcg / idcg, map=ap, precision=h / len(rec))


def aggregate(recs, gts, n_items, n_recommendable=None, cutoff=None, total=None):
    """recs/gts: per user lists/sets, users without ground truth included.
    cutoff: not None selects the recall definition min(cutoff, n_gt)."""
    out = dict(hit=0.0, recall=0.0, ndcg=0.0, map=0.0, precision=0.0)
    cnt = [0] * n_items
    valid = 0
    for rec, gt in zip(recs, gts):
        if not gt:
            continue
        valid += 1
        denom = len(gt) if cutoff is None else max(1, min(cutoff, len(gt), len(rec) or 1))
        for k, v in user_metrics(rec, gt, denom).items():
            out[k] += v
        for i in rec:
            cnt[i] += 1
    for k in out:
        out[k] /= max(valid, 1)
    tot = sum(cnt)
    out["total_user"] = float(len(recs))
    out["valid_user"] = float(valid)
    out["n_items"] = float(n_items)
    out["appeared_item"] = float(sum(c > 0 for c in cnt))
    out["entropy"] = -sum(c / tot * math.log(c / tot) for c in cnt if c) if tot else 0.0
    # mean absolute difference form of the Gini index
    out["gini_index"] = sum(abs(a - b) for a in cnt for b in cnt) / (2 * n_items * tot) if tot else 0.0
    nr = n_items if n_recommendable is None else n_recommendable
    out["catalog_coverage"] = out["appeared_item"] / nr if nr else float("nan")
    return out


def close(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def compare(ctx, got, want, msg, names=None, suffix=""):
    for n in names or NAMES + ["total_user", "valid_user", "n_items"]:
        k = n + suffix
        if k not in got:
            ctx.fail(f"{msg()}: {k} is missing")
        if not close(got[k], want[n]):
            ctx.fail(f"{msg()}: {k} is {got[k]!r}, expected {want[n]!r}")
    ctx.step()
