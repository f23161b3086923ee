"""C03: MIND readers against a line-by-line reference reader."""
import itertools
import json
import os
import shutil
import tempfile

from vf import dsfix as fx
from vf.scale import MEDIUM, SMALL

LEVEL = "model_checking"
RULE = (
    "Every archive of a bounded grammar (log lines x candidates x histories x timestamps; article field values x duplicates x splits; "
    "vector files; archive layouts) is written and read by the real manager; the result is compared with a reference reader that splits lines on tabs."
)
ASSUMPTIONS = ["Impression ids are unique within one split and every impression lists at least one candidate, as in MIND.",
               "Empty stored fields are compared as missing values."]
BOUNDS = {
    "quick": "up to 3 log lines, candidate lists up to length 2 over 7 tokens per line pair (length 3 alone), 17 field values squared, all month/day/hour combinations; candidate lists, histories and logs of 31..2049 entries",
    "thorough": "candidate lists up to length 3 for line pairs, 17 field values in three fields",
}


def setup():
    from vf.load import install

    install()
    import irspack.dataset  # noqa


def isna(x):
    import pandas as pd

    return x is None or (not isinstance(x, (list, dict)) and bool(pd.isna(x)))


def norm(x):
    return None if isna(x) else (x.item() if hasattr(x, "item") else x)


class Mgr:
    def __init__(self, train, dev, prefix=("", "")):
        self.files = {"train": train, "dev": dev}
        self.prefix = prefix

    def __enter__(self):
        from irspack.dataset import MINDDataManager

        self.d = tempfile.mkdtemp(prefix="c03")
        ps = []
        for i, s in enumerate(("train", "dev")):
            p = os.path.join(self.d, s + ".zip")
            with open(p, "wb") as f:
                f.write(fx.mkzip({self.prefix[i] + k: v for k, v in self.files[s].items()}, stored=True))
            ps.append(p)
        self.m = MINDDataManager(*ps)
        return self.m

    def __exit__(self, *a):
        self.m.close()
        shutil.rmtree(self.d)


def hms(ts):
    """independent parse of 'M/D/YYYY H:MM:SS AM'"""
    date, time, ap = ts.split(" ")
    mo, da, ye = (int(x) for x in date.split("/"))
    h, mi, s = (int(x) for x in time.split(":"))
    h = h % 12 + (12 if ap == "PM" else 0)
    return (ye, mo, da, h, mi, s)


def tsval(t):
    return (t.year, t.month, t.day, t.hour, t.minute, t.second)


def ref_behaviors(text):
    out = []
    for line in text.split("\n"):
        if line:
            f = line.split("\t")
            out.append((int(f[0]), f[1], hms(f[2]), f[3] or None, f[4]))
    return out


def ref_impressions(text, split):
    out = []
    for imp, u, ts, _, cands in ref_behaviors(text):
        for pos, c in enumerate(cands.split()):
            item, _, lab = c.rpartition("-")
            out.append((imp, u, ts, item, pos, lab == "1", split))
    return out


def rows(df, cols):
    return [tuple(tsval(v) if c == "timestamp" else norm(v) for c, v in zip(cols, r)) for r in zip(*[df[c].tolist() if c != "timestamp" else list(df[c]) for c in cols])]


BCOLS = ["impression_id", "user_id", "timestamp", "history", "impressions"]
ICOLS = ["impression_id", "user_id", "timestamp", "item_id", "position", "clicked", "split"]
XCOLS = ["impression_id", "user_id", "timestamp", "item_id", "split"]


def check_logs(ctx, m, train, dev):
    T = {"train": train, "dev": dev}
    for s in ("train", "dev"):
        b = m.read_behaviors(s)
        ctx.eq(sorted(b.columns), sorted(BCOLS), "behaviour columns")
        ctx.eq(rows(b, BCOLS), ref_behaviors(T[s]), f"behaviours of {s}")
    for arg, parts in ((None, ("train", "dev")), ("train", ("train",)), ("dev", ("dev",))):
        want = [r for s in parts for r in ref_impressions(T[s], s)]
        i = m.read_impressions(arg)
        ctx.eq(sorted(i.columns), sorted(ICOLS), "impression columns")
        ctx.eq(rows(i, ICOLS), want, f"impressions of {arg}")
        ctx.eq(list(i.index), list(range(len(want))), "impression index")
        c = m.read_impressions(arg, clicked_only=True)
        ctx.eq(rows(c, ICOLS), [r for r in want if r[5]], f"clicked impressions of {arg}")
        x = m.read_interaction(arg)
        ctx.eq(sorted(x.columns), sorted(XCOLS), "interaction columns")
        ctx.eq(rows(x, XCOLS), [r[:4] + r[6:] for r in want if r[5]], f"interactions of {arg}")
        ctx.step(3)
    ctx.step(2)
    ctx.outcome(train, dev)


TOK = ["N1-0", "N1-1", "N2-1", "A-B-1", 'N"q"-0', '"N3-1', "7-0"]
HIST = ["", "N1 N2", '"N5 N1-1']


def cands(k):
    return [c for n in range(1, k + 1) for c in itertools.product(TOK, repeat=n)]


def line(imp, u, ts, h, c):
    return f"{imp}\t{u}\t{ts}\t{h}\t{' '.join(c)}\n"


def log_cases(tier):
    def gen():
        k = 3 if tier == "thorough" else 2
        for c in cands(3):
            for h in HIST if len(c) < 3 or tier == "thorough" else HIST[:1]:
                for imp in (1, 77) if len(c) < 3 or tier == "thorough" else (77,):
                    yield [[[imp, "U1", h, c]], [[1, "U9", "", ["N1-1", "N1-0"]]]]
        for a in cands(k):
            for b in cands(2 if tier == "thorough" else 1):
                yield [[[5, "U1", "N4", a], [2, "U2", "", b]], [[2, "U1", "N1", a]]]
        for a in cands(1):
            for b in cands(2):
                for c in cands(1) if tier == "thorough" else [("N1-1",)]:
                    yield [[[3, "U1", "", a], [9, "U1", "N4", b], [1, "U2", "", c]], [[9, "U2", "", b], [3, "U1", "", a]]]
        for n in SMALL + MEDIUM[:5]:  # long candidate lists and histories, many lines
            long = [TOK[(j * j + j) % 7] if j % 3 else f"M{j}-{j % 2}" for j in range(n)]
            yield [[[5, "U1", " ".join(x.rsplit("-", 1)[0] for x in long), long], [2, "U2", "", long[:2]]], [[2, "U1", "N1", long[::-1]]]]
            yield [[[1 + j * 7919 % 1000003, f"U{j % 90}", "", long[j: j + 1 + j % 3]] for j in range(n)], [[70000 + j, "U1", "N1", long[j:j + 1]] for j in range(n)]]
    return gen


STAMPS = ["11/13/2019 8:36:57 AM", "1/2/2019 12:00:00 AM", "2/1/2019 12:59:59 PM", "12/31/2019 11:59:59 PM"]


def run_log(ctx, case):
    tr, dv = case
    # at different times, and all at the same time
    for step in (1, 0) if len(tr) > 1 else (1,):
        mk = lambda ls, o: "".join(line(i, u, STAMPS[(j + o) * step % 4], h, c) for j, (i, u, h, c) in enumerate(ls))
        t, d = mk(tr, 0), mk(dv, 2)
        with Mgr({"behaviors.tsv": t}, {"behaviors.tsv": d}) as m:
            check_logs(ctx, m, t, d)


def time_cases():
    for mo in range(1, 13):
        for ap in ("AM", "PM"):
            yield [mo, ap]


def run_time(ctx, case):
    mo, ap = case
    ls = []
    for da in (1, 2, 3, 9, 10, 11, 12, 13, 28):
        for h in range(1, 13):
            for ms in ("00:00", "05:07", "59:59"):
                ls.append(line(len(ls) + 1, f"U{da}", f"{mo}/{da}/2019 {h}:{ms} {ap}", "", ["N1-1"]))
    t = "".join(ls)
    with Mgr({"behaviors.tsv": t}, {"behaviors.tsv": ls[0]}) as m:
        ctx.state(len(ls))
        check_logs(ctx, m, t, ls[0])


# ------------------------------------------------------------------ articles
VAL = ["T", '"T', 'T"', '"T" said', '"', "it's", "NA", "null", "None", "nan", "123", "1e5", "", " lead", "a,b|c", "#x", "\u00fcn\u00ef \u2014"]
ENT = ["", "[]", '[{"WikidataId": "Q1", "Label": "a\\"b"}]', '[{"A": [1, 2.5, null]}, {"B": "\\u00e9"}]']
ACOLS = ["category", "subcategory", "title", "abstract", "url", "title_entities", "abstract_entities"]


def check_news(ctx, m, train, dev):
    T = {"train": train, "dev": dev}
    for arg, parts in ((None, ("train", "dev")), ("train", ("train",)), ("dev", ("dev",))):
        seen = {}
        for s in parts:
            for l in T[s].split("\n"):
                if l:
                    f = l.split("\t")
                    seen.setdefault(f[0], [x or None for x in f[1:]])
        for pe in (True, False):
            df = m.read_item_info(arg, parse_entities=pe)
            ctx.eq(list(df.index), list(seen), f"article ids of {arg}")
            ctx.eq(sorted(df.columns), sorted(ACOLS), "article columns")
            ctx.eq(df.index.name, "item_id", "index name")
            for j, c in enumerate(ACOLS):
                want = [v[j] for v in seen.values()]
                if pe and j >= 5:
                    want = [json.loads(w) if w else [] for w in want]
                got = [norm(x) for x in df[c]]
                ctx.check(got == want and all(type(a) is type(b) for a, b in zip(got, want)),
                          f"articles {arg} parse={pe} column {c}: got {got!r}, expected {want!r}")
            ctx.step()
    ctx.outcome(train, dev)


def art(i, cat="news", sub="world", title="T", abst="A", url="https://x", te="[]", ae="[]"):
    return "\t".join([i, cat, sub, title, abst, url, te, ae]) + "\n"


def news_cases(tier):
    def gen():
        for a in range(len(VAL)):
            for b in range(len(VAL)):
                for fields in (("title", "abst"), ("cat", "sub"), ("url", "title")) if tier == "thorough" else (("title", "abst"),):
                    for place in ("first", "last", "dev"):
                        yield ["val", fields, a, b, place]
        for te in range(4):
            for ae in range(4):
                for place in ("first", "last", "dev"):
                    yield ["ent", None, te, ae, place]
        ids = ["N1", "N2", "N3"]
        for n in range(0, 4):
            for t in itertools.product(ids, repeat=n):
                for k in range(0, 4 if tier == "thorough" else 3):
                    for d in itertools.product(ids, repeat=k):
                        if t and d:
                            yield ["dup", None, list(t), list(d), ""]
    return gen


def run_news(ctx, case):
    kind, fields, a, b, place = case
    if kind == "dup":
        var = lambda s, k: [dict(title=f"{s}{k}", te=ENT[2 * (s == "d")]), dict(cat=f"c{s}{k}", url=f"https://{s}{k}"), dict(sub=f"s{s}{k}", abst=f"a{s}{k}", title=f"{s}{k}"), {}][(k + len(a)) % 4]
        t = "".join(art(i, **var("t", k)) for k, i in enumerate(a))
        d = "".join(art(i, **var("d", k)) for k, i in enumerate(b))
    else:
        if kind == "val":
            row = art("N1", **{fields[0]: VAL[a], fields[1]: VAL[b]})
        else:
            row = art("N1", te=ENT[a], ae=ENT[b])
        oth, third = art("N2", title="plain"), art("N3", title="x", abst="y")
        t, d = {"first": (row + oth, third), "last": (oth + row, third), "dev": (oth, third + row + art("N4"))}[place]
    with Mgr({"news.tsv": t}, {"news.tsv": d}) as m:
        check_news(ctx, m, t, d)


# ------------------------------------------------------------------ embeddings, layouts, splits
NUM = ["0.5", "-0.25", "0.1", "1e-05", "0", "-3.402", "123456.789", "0.333333"]


def emb_cases():
    for a in NUM:
        for b in NUM:
            for n in (1, 2):
                yield [[["Q1", a, b][: n + 1], ["Q2", b, a][: n + 1]]]
    for ids in itertools.product(["Q9", "Q10", "P-1", '"Q3'], repeat=3):
        yield [[[i, "0.5", NUM[k]] for k, i in enumerate(ids)]]
    for width in (99, 100, 101, 300):
        yield [[[f"Q{k}"] + [str((k * width + j) % 64 / 64) for j in range(width)] for k in (3, 1, 2)]]


def run_emb(ctx, case):
    import numpy as np

    rws = case[0]
    t = "".join("\t".join(r) + "\n" for r in rws)
    o = "Z1\t9\t8\n"
    e = {"entity_embedding.vec": t, "relation_embedding.vec": o}
    r = {"entity_embedding.vec": o, "relation_embedding.vec": t}
    with Mgr(e, r) as m:
        for df, name in ((m.read_entity_embeddings(), "entity_id"), (m.read_entity_embeddings("train"), "entity_id"),
                         (m.read_relation_embeddings("dev"), "relation_id")):
            ctx.step()
            ctx.eq(list(df.index), [x[0] for x in rws], "embedding ids")
            ctx.eq(df.index.name, name, "index name")
            want = np.array([[np.float32(float(v)) for v in x[1:]] for x in rws], dtype=np.float32)
            got = df.to_numpy()
            ctx.check(got.shape == want.shape and got.dtype == np.float32 and np.allclose(got, want, rtol=3e-7, atol=0), f"embedding values {got} expected {want}")
            ctx.eq(list(df.columns), [f"embedding_{i}" for i in range(want.shape[1])], "columns")
        for df in (m.read_entity_embeddings("dev"), m.read_relation_embeddings()):
            ctx.eq((list(df.index), df.to_numpy().tolist()), (["Z1"], [[9.0, 8.0]]), "other split's embeddings")
            ctx.step()


FILES = {
    "behaviors.tsv": line(1, "U1", STAMPS[0], "", ["N1-1", "N2-0"]),
    "news.tsv": art("N1"),
    "entity_embedding.vec": "Q1\t0.5\n",
    "relation_embedding.vec": "R1\t0.5\n",
}
DECOY = {
    "behaviors.tsv": line(8, "U8", STAMPS[1], "", ["N8-1"]),
    "news.tsv": art("N8"),
    "entity_embedding.vec": "Q8\t8\n",
    "relation_embedding.vec": "R8\t8\n",
}
READ = {
    "behaviors.tsv": lambda m, s: rows(m.read_behaviors(s), BCOLS)[0][0],
    "news.tsv": lambda m, s: list(m.read_item_info(s).index),
    "entity_embedding.vec": lambda m, s: list(m.read_entity_embeddings(s).index),
    "relation_embedding.vec": lambda m, s: list(m.read_relation_embeddings(s).index),
}
GOODV = {"behaviors.tsv": 1, "news.tsv": ["N1"], "entity_embedding.vec": ["Q1"], "relation_embedding.vec": ["R1"]}
LAYOUT = {
    "flat": lambda k: {k: 0}, "folder": lambda k: {f"MINDsmall_train/{k}": 0}, "deep": lambda k: {f"a/b-c/{k}": 0},
    "decoy-prefix": lambda k: {k: 0, f"old_{k}": 1}, "decoy-prefix-nested": lambda k: {f"d/{k}": 0, f"d/old_{k}": 1},
    "decoy-top": lambda k: {f"old/{k}": 1, k: 0}, "macosx": lambda k: {f"M/{k}": 0, f"__MACOSX/M/._{k}": 1},
    "suffix": lambda k: {f"M/{k}": 0, f"M/{k}.bak": 1},
    "ambiguous": lambda k: {f"a/{k}": 0, f"b/{k}": 1}, "absent": lambda k: {"other": 0}, "absent-prefix": lambda k: {f"old_{k}": 0},
}


def layout_cases():
    for lay in LAYOUT:
        for k in FILES:
            for s in ("train", "dev"):
                yield [lay, k, s]


def run_layout(ctx, case):
    lay, k, s = case
    mine = {n: (DECOY if w else FILES)[k] for n, w in LAYOUT[lay](k).items()}
    other = {k: DECOY[k]}
    with Mgr(*((mine, other) if s == "train" else (other, mine))) as m:
        ctx.step()
        if lay in ("ambiguous", "absent", "absent-prefix"):
            ctx.raises(Exception, lambda: READ[k](m, s), f"{k} in layout {lay}")
        else:
            ctx.eq(READ[k](m, s), GOODV[k], f"{k} in layout {lay} of {s}")


def split_cases():
    for s in ("test", "Train", "", "dev ", "train,dev", 0, None, "all"):
        for k in ("behaviors", "impressions", "interaction", "item_info", "entity_embeddings", "relation_embeddings"):
            if s is None and k in ("impressions", "interaction", "item_info"):
                continue
            yield [s, k]


def run_split(ctx, case):
    s, k = case
    with Mgr(FILES, FILES) as m:
        ctx.step()
        ctx.raises(Exception, lambda: getattr(m, "read_" + k)(s), f"unknown split {s!r} in read_{k}")


def badent_cases():
    for e in ('{"A": 1}', "3", '"x"', "[", "{'A': 1}"):
        for f in ("te", "ae"):
            yield [e, f]


def run_badent(ctx, case):
    e, f = case
    n = art("N1") + art("N2", **{f: e})
    with Mgr({"news.tsv": n}, FILES) as m:
        ctx.step()
        ctx.raises(Exception, lambda: m.read_item_info("train"), f"entity field {e}")
        ctx.eq(list(m.read_item_info("train", parse_entities=False).index), ["N1", "N2"], "unparsed articles")


# ------------------------------------------------------------------ use as a context manager
def with_cases():
    for k in FILES:
        for how in ("with", "with-raise", "close", "close-twice", "with-close"):
            yield [k, how]


def run_with(ctx, case):
    """Inside the block the files can be read; after it (also when the block raises) the archives are closed and the error of the block is not lost."""
    k, how = case

    class Boom(Exception):
        pass

    with Mgr(FILES, FILES) as m:
        ctx.step()
        zfs = list(m._zipfiles.values()) if hasattr(m, "_zipfiles") else []
        if how.startswith("with"):
            try:
                with m as inner:
                    ctx.check(inner is m, "the block gets another object")
                    ctx.eq(READ[k](inner, "train"), GOODV[k], f"{k} inside the block")
                    ctx.eq(READ[k](inner, "dev"), GOODV[k], f"{k} inside the block")
                    if how == "with-close":
                        m.close()
                    if how == "with-raise":
                        raise Boom()
                ctx.check(how != "with-raise", "the error of the block was swallowed")
            except Boom:
                ctx.check(how == "with-raise", "unexpected error")
        else:
            ctx.eq(READ[k](m, "train"), GOODV[k], f"{k} before close")
            m.close()
            if how == "close-twice":
                m.close()
        for s in ("train", "dev"):
            ctx.raises(Exception, lambda: READ[k](m, s), f"{k} after the archives were closed")
        ctx.check(all(z.fp is None for z in zfs), "an archive stays open")


def families(tier):
    return {
        "context": (with_cases, run_with),
        "logs": (log_cases(tier), run_log),
        "timestamps": (time_cases, run_time),
        "articles": (news_cases(tier), run_news),
        "embeddings": (emb_cases, run_emb),
        "layouts": (layout_cases, run_layout),
        "unknown_split": (split_cases, run_split),
        "malformed_entities": (badent_cases, run_badent),
    }
