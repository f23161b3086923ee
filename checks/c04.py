"""C04: the other public-dataset readers against line-by-line reference readers."""
import csv
import io
import itertools
import os
import sys
import tempfile
import types

from vf import dsfix as fx
from vf.scale import LARGE, MEDIUM, SMALL

LEVEL = "model_checking"
RULE = (
    "Every file of a bounded grammar per data set (rows up to 3 over small value alphabets, with and without a final newline) is put in an "
    "archive, read by the real manager and compared with a reference reader; every text field also carries program text once, with a trap that records its execution."
)
ASSUMPTIONS = ["Field values are within what the published files contain (no titles that start with a double quote in ML-100K, no NA-like words, "
               "at least one non-numeric id in textual id columns)."]
BOUNDS = {"quick": "row sequences up to length 3 over 4-6 row values; all genre flag combinations of 2 movies x 4 genres; all negative lists up to length 3 over 4 items; files of 31..32767 lines",
          "thorough": "row sequences up to length 4"}


def setup():
    from vf.load import install

    install()
    import irspack.dataset  # noqa


HITS = []


def trap():
    m = types.ModuleType("vf_sentinel")
    m.hit = lambda *a: HITS.append(1) or "x"
    sys.modules["vf_sentinel"] = m
    HITS.clear()


class Z:
    def __init__(self, cls, files):
        self.cls, self.files = cls, files

    def __enter__(self):
        from irspack import dataset as ds

        fd, self.p = tempfile.mkstemp(prefix="c04", suffix=".zip")
        os.write(fd, fx.mkzip(self.files, stored=True))
        os.close(fd)
        self.m = getattr(ds, self.cls)(self.p)
        return self.m

    def __exit__(self, *a):
        getattr(self.m, "zf", io.BytesIO()).close()
        os.unlink(self.p)


def nn(x):
    import pandas as pd

    if x is None or (not isinstance(x, (list, dict)) and pd.isna(x)):
        return None
    return x.item() if hasattr(x, "item") else x


def col(df, c):
    import pandas as pd

    s = df[c]
    if pd.api.types.is_datetime64_any_dtype(s):
        return [None if pd.isna(t) else t.isoformat() for t in s]
    return [nn(x) for x in s]


def iso(ts):
    import datetime

    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ts)).isoformat()


def seqs(alpha, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alpha, repeat=n)


RATE = [(1, 2, 5, 0), (1, 2, 3, 86399), (7, 1, 1, 978300760), (2, 1682, 4, 893286638), (943, 10, 2, 1)]


def rating_cases(tier):
    def gen():
        for kind in ("ml100k", "ml1m", "ml20m", "neumf", "amazon"):
            for rows in seqs(range(len(RATE)), 1, 4 if tier == "thorough" else 3):
                for nl in ("\n", ""):
                    yield [kind, rows, nl]
            for n in SMALL + MEDIUM + LARGE[:1]:
                yield [kind, n, "\n"]
    return gen


def run_rating(ctx, case):
    kind, idx, nl = case
    rows = [RATE[i] for i in idx] if not isinstance(idx, int) else [
        (1 + j * j % 138493, 1 + j * 7919 % 131262, 1 + j % 5, 789652009 + j * 86413) for j in range(idx)]
    if kind == "ml100k":
        cls, f, cols = "MovieLens100KDataManager", {"ml-100k/u.data": "\n".join("\t".join(map(str, r)) for r in rows) + nl}, ["userId", "movieId", "rating", "timestamp"]
    elif kind == "ml1m":
        cls, f, cols = "MovieLens1MDataManager", {"ml-1m/ratings.dat": "\n".join("::".join(map(str, r)) for r in rows) + nl}, ["userId", "movieId", "rating", "timestamp"]
    elif kind == "ml20m":
        rows = [(a, b, c - 0.5, d) for a, b, c, d in rows]
        cls, f, cols = "MovieLens20MDataManager", {"ml-20m/ratings.csv": "userId,movieId,rating,timestamp\n" + "\n".join(",".join(map(str, r)) for r in rows) + nl}, ["userId", "movieId", "rating", "timestamp"]
    elif kind == "neumf":
        cls, f, cols = "NeuMFML1MDownloader", {"train": "\n".join("\t".join(map(str, r)) for r in rows) + nl, "test": "(0,1)\t2\n"}, ["user_id", "item_id", "rating", "timestamp"]
    else:
        rows = [(f"A{a}", f"B{b:04d}", float(c), d) for a, b, c, d in rows]
        cls, f, cols = "AmazonMusicDataManager", {"amazon-music/ratings.csv": "\n".join(",".join(map(str, r)) for r in rows) + nl}, ["user_id", "music_id", "rating", "timestamp"]
    with Z(cls, f) as m:
        df = m.read_train_test()[0] if kind == "neumf" else m.read_interaction()
    ctx.step()
    ctx.outcome(kind, idx)
    ctx.eq(list(df.columns), cols, f"{kind} columns")
    ctx.eq(len(df), len(rows), f"{kind} rows for {rows}")
    for j, c in enumerate(cols):
        want = [r[j] for r in rows]
        if c == "timestamp" and kind != "amazon":
            want = [iso(t) for t in want]
        ctx.eq(col(df, c), want, f"{kind} column {c}")
    ctx.eq(list(df.index), list(range(len(rows))), f"{kind} index")


GEN = ["unknown", "Action", "Children's", "Film-Noir", "Sci-Fi"]
DATES = ["01-Jan-1995", "31-Dec-1971", "04-Feb-1998", ""]
MON = {m: i + 1 for i, m in enumerate("Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split())}
TITLES = ["Toy Story (1995)", "Caf\u00e9 (1990)", "A, B: C", "unknown", "Say \"x\" (2000)", "#1 (1999)", "It's"]


def item100k_cases():
    for a in itertools.product((0, 1), repeat=4):
        for b in itertools.product((0, 1), repeat=4):
            if any(a) or any(b):
                yield ["g", a, b]
    for t in range(len(TITLES)):
        for t2 in range(len(TITLES)):
            for d in range(len(DATES)):
                for nl in (0, 1):
                    yield ["t", [t, t2], [d, nl]]


def run_item100k(ctx, case):
    kind, a, b = case
    if kind == "g":
        ng = len(a)
        movies = [(3, "A", "01-Jan-1995", "", "http://a", a), (1, "B", "02-Mar-1996", "", "", b)]
        nl = 1
    else:
        ng = 3
        d, nl = b
        movies = [(2, TITLES[a[0]], DATES[d], "", "http://us.imdb.com/M/title-exact?Toy%20Story%20(1995)", (0, 1, 0)),
                  (10, TITLES[a[1]], DATES[0], "", "u", (1, 0, 1))]
    text = "\n".join("|".join([str(i), t, d, v, u] + [str(x) for x in g]) for i, t, d, v, u, g in movies) + "\n" * nl
    genres = "".join(f"{g}|{i}\n" for i, g in enumerate(GEN[:ng])) + ("\n" if nl else "")
    with Z("MovieLens100KDataManager", {"ml-100k/u.item": text.encode("latin-1"), "ml-100k/u.genre": genres}) as m:
        df, g = m.read_item_info()
    ctx.step()
    ctx.outcome(case)
    ctx.eq(list(df.index), [x[0] for x in movies], "movie ids")
    ctx.eq(df.index.name, "movieId", "index name")
    ctx.eq(list(df.columns), ["title", "release_date", "video_release_date", "URL"], "columns")
    ctx.eq(col(df, "title"), [x[1] for x in movies], "titles")
    ctx.eq(col(df, "URL"), [x[4] or None for x in movies], "urls")

    def dd(s):
        if not s:
            return None
        x, mo, y = s.split("-")
        return f"{y}-{MON[mo]:02d}-{x}T00:00:00"

    ctx.eq(col(df, "release_date"), [dd(x[2]) for x in movies], "release dates")
    want = [(x[0], GEN[k]) for x in movies for k, f in enumerate(x[5]) if f]
    ctx.eq(sorted(zip(col(g, "movieId"), col(g, "genre"))), sorted(want), "genre table")
    ctx.eq(sorted(g.columns), ["genre", "movieId"], "genre columns")


USERS = [(1, 24, "M", "technician", "85711"), (2, 53, "F", "other", "T8H1N"), (10, 7, "M", "none", "02460"), (943, 73, "F", "student", "E2A4H")]


def user_cases():
    for kind in ("ml100k", "ml1m"):
        for n in (2, 3):
            for p in itertools.permutations(range(4), n):
                if 1 in p or 3 in p:
                    for nl in (0, 1):
                        yield [kind, p, nl]


def run_user(ctx, case):
    kind, p, nl = case
    us = [USERS[i] for i in p]
    if kind == "ml100k":
        f, cls = {"ml-100k/u.user": "\n".join("|".join(map(str, u)) for u in us) + "\n" * nl}, "MovieLens100KDataManager"
        names = ["age", "gender", "occupation", "zipcode"]
        want = us
    else:
        us = [(i, g, a, len(o), z) for i, a, g, o, z in us]
        f, cls = {"ml-1m/users.dat": "\n".join("::".join(map(str, u)) for u in us) + "\n" * nl}, "MovieLens1MDataManager"
        names = ["gender", "age", "occupation", "zipcode"]
        want = us
    with Z(cls, f) as m:
        df = m.read_user_info()
    ctx.step()
    ctx.outcome(case)
    ctx.eq((list(df.index), df.index.name, list(df.columns)), ([u[0] for u in want], "userId", names), f"{kind} users")
    for j, c in enumerate(names):
        ctx.eq(col(df, c), [u[j + 1] for u in want], f"{kind} user {c}")


M1 = ["Toy Story (1995)", "Caf\u00e9 (1990)", "\"Q\" A (2000)", "A: B (Le C) (1972)", "Say x(1969)", "No year", "1984 (1956)", "X (1995) ", "Fear (1950) (1996)", "(500) Days (2009)"]


def item1m_cases():
    for a in range(len(M1)):
        for b in range(len(M1)):
            for nl in (0, 1):
                yield [[a, b], nl]


def run_item1m(ctx, case):
    idx, nl = case
    ms = [(i * 7 + 1, M1[k], "Drama|War" if i else "Children's") for i, k in enumerate(idx)]
    with Z("MovieLens1MDataManager", {"ml-1m/movies.dat": ("\n".join("::".join(map(str, r)) for r in ms) + "\n" * nl).encode("latin-1")}) as m:
        df = m.read_item_info()
    ctx.step()
    ctx.outcome(case)
    ctx.eq((list(df.index), df.index.name, sorted(df.columns)), ([r[0] for r in ms], "movieId", ["genres", "release_year", "title"]), "ml1m movies")
    ctx.eq(col(df, "title"), [r[1] for r in ms], "ml1m titles")
    ctx.eq(col(df, "genres"), [r[2] for r in ms], "ml1m genres")

    def year(t):
        t = t.rstrip()
        return int(t[t.rindex("(") + 1:-1]) if t.endswith(")") else None

    ctx.eq(col(df, "release_year"), [year(r[1]) for r in ms], "ml1m release year")


def neumf_cases(tier):
    def gen():
        for pos in range(4):
            for neg in seqs(range(4), 1, 4 if tier == "thorough" else 3):
                for fmt in (0, 1):
                    yield [[[0, pos, neg]], fmt]
        for p1 in range(3):
            for n1 in seqs(range(3), 1, 2):
                for p2 in range(3):
                    for n2 in seqs(range(3), 1, 2):
                        yield [[[3, p1, n1], [1, p2, n2]], 0]
    return gen


def run_neumf(ctx, case):
    lines, fmt = case
    txt = "\n".join((f"({u},{p})" if fmt == 0 else f"( {u} , {p} )") + "\t" + "\t".join(map(str, n)) for u, p, n in lines) + ("\n" if fmt == 0 else "")
    for cls in ("NeuMFML1MDownloader", "NeuMFMPinterestDownloader"):
        with Z(cls, {"train": "0\t0\t1\t5\n", "test": txt}) as m:
            df = m.read_train_test()[1]
        ctx.step()
        want = []
        for u, p, n in lines:
            for i, pos in [(p, True)] + [(x, False) for x in n]:
                if not any(w[:2] == (u, i) for w in want):
                    want.append((u, i, pos))
        ctx.eq(sorted(df.columns), ["item_id", "positive", "user_id"], "test columns")
        ctx.eq(list(zip(col(df, "user_id"), col(df, "item_id"), col(df, "positive"))), want, f"NeuMF test set of {txt!r}")
    ctx.outcome(lines)


def cite_cases(tier):
    alpha = [[], [0], [3], [1, 0], [2, 2], [16979, 5, 1]]

    def gen():
        for us in seqs(range(len(alpha)), 1, 4 if tier == "thorough" else 3):
            if any(alpha[i] for i in us):
                yield ["u", [alpha[i] for i in us], len(us) % 2]
        for t in TITLES:
            for a in ["x", "a, b", "l1\nl2", 'q "z" q', "\u00e9"]:
                yield ["m", t, a]
        yield ["bad", [[1, 2]], 0]
    return gen


def run_cite(ctx, case):
    kind, a, b = case
    ctx.step()
    ctx.outcome(case)
    if kind == "bad":
        with Z("CiteULikeADataManager", {"citeulike-a-master/users.dat": "3 1 2\n"}) as m:
            ctx.raises(Exception, m.read_interaction, "a user line whose count is wrong")
        return
    if kind == "u":
        txt = "\n".join(" ".join(map(str, [len(x)] + x)) for x in a) + "\n" * b
        with Z("CiteULikeADataManager", {"citeulike-a-master/users.dat": txt}) as m:
            df = m.read_interaction()
        ctx.eq(list(df.columns), ["user_id", "item_id"], "columns")
        ctx.eq(list(zip(col(df, "user_id"), col(df, "item_id"))), [(u, i) for u, x in enumerate(a) for i in x], "interactions")
        return
    buf = io.StringIO()
    w = csv.writer(buf, quoting=csv.QUOTE_ALL, lineterminator="\n")
    w.writerow(["doc.id", "title", "citeulike.id", "raw.abstract"])
    w.writerow([1, a, 42, b])
    w.writerow([2, "other", 43, "z"])
    with Z("CiteULikeADataManager", {"citeulike-a-master/raw-data.csv": buf.getvalue().encode("latin-1")}) as m:
        df = m.read_item_meta()
    ctx.eq((list(df.index), df.index.name, list(df.columns)), ([0, 1], "doc.id", ["title", "citeulike.id", "raw.abstract"]), "item meta")
    ctx.eq((col(df, "title"), col(df, "citeulike.id"), col(df, "raw.abstract")), ([a, "other"], [42, 43], [b, "z"]), "item meta values")


def meta_cases():
    titles = [None, "T", "it's \"q\"", "\u00e9\n", "NA"]
    prices = [None, 9.99, 0, 5]
    cats = [None, [["a", "b"]], [["x"], ["y"]], [[]]]
    for t in range(len(titles)):
        for p in range(len(prices)):
            for c in range(len(cats)):
                yield [titles[t], prices[p], cats[c]]


def run_meta(ctx, case):
    t, p, c = case
    rec = {"asin": "B1"}
    if t is not None:
        rec["title"] = t
    if p is not None:
        rec["price"] = p
    if c is not None:
        rec["categories"] = c
    other = {"asin": "5555991584", "title": "o", "price": 1.25, "categories": [["z"]], "related": {"also": ["B1"]}, "salesRank": {"Music": 3}}
    txt = repr(rec) + "\n" + repr(other) + "\n"
    with Z("AmazonMusicDataManager", {"amazon-music/music-meta.json": txt}) as m:
        df = m.read_metadata()
    ctx.step()
    ctx.outcome(case)
    ctx.eq((list(df.index), df.index.name, list(df.columns)), (["B1", "5555991584"], "music_id", ["title", "price", "categories"]), "metadata table")
    ctx.eq(col(df, "title"), [t, "o"], "titles")
    ctx.eq(col(df, "price"), [p, 1.25], "prices")
    ctx.eq(col(df, "categories"), [None if c is None else c[0], ["z"]], "categories")


CODE = "__import__('vf_sentinel').hit()"
EVIL = [
    CODE, "{'asin': " + CODE + "}", "{'asin': 'B1', 'title': " + CODE + "}", "{'asin': 'B1', **{'title': " + CODE + "}}",
    "[{'asin': x} for x in [" + CODE + "]][0]", "{'asin': f'{" + CODE + "}'}", "(lambda: " + CODE + ")()", "{'asin': 'B1', 'categories': [" + CODE + "]}",
    "{'asin': 'B1'} if " + CODE + " else {}", "{'asin': '" + CODE.replace("'", '"') + "'}",
]


def code_cases():
    for i in range(len(EVIL)):
        yield ["amazon", i]
    for k in ("ml100k", "ml1m", "ml20m", "neumf", "citeulike", "mind", "amazon-ratings"):
        yield [k, 0]


def run_code(ctx, case):
    k, i = case
    trap()
    j = CODE
    jobs = {
        "amazon": lambda: [("AmazonMusicDataManager", {"amazon-music/music-meta.json": EVIL[i] + "\n"}, ["read_metadata"])],
        "amazon-ratings": lambda: [("AmazonMusicDataManager", {"amazon-music/ratings.csv": f"{j},{j},5.0,1\n"}, ["read_interaction"])],
        "ml100k": lambda: [("MovieLens100KDataManager", {
            "ml-100k/u.data": f"1\t2\t{j}\t0\n", "ml-100k/u.genre": f"{j}|0\n", "ml-100k/u.item": f"1|{j}|01-Jan-1995||{j}|1\n", "ml-100k/u.user": f"1|2|{j}|{j}|{j}\n"},
            ["read_interaction", "read_item_info", "read_user_info"])],
        "ml1m": lambda: [("MovieLens1MDataManager", {"ml-1m/ratings.dat": f"1::2::{j}::0\n", "ml-1m/movies.dat": f"1::{j} (1990)::{j}\n", "ml-1m/users.dat": f"1::{j}::1::1::{j}\n"},
                          ["read_interaction", "read_item_info", "read_user_info"])],
        "ml20m": lambda: [("MovieLens20MDataManager", {"ml-20m/ratings.csv": f"userId,movieId,rating,timestamp\n1,2,{j},0\n"}, ["read_interaction"])],
        "neumf": lambda: [("NeuMFML1MDownloader", {"train": f"1\t1\t{j}\t0\n", "test": f"(1,2)\t{j}\n"}, ["read_train_test"])],
        "citeulike": lambda: [("CiteULikeADataManager", {"citeulike-a-master/users.dat": f"1 {j}\n", "citeulike-a-master/raw-data.csv": f'"doc.id","title"\n"1","{j}"\n'},
                               ["read_interaction", "read_item_meta"])],
    }
    if k == "mind":
        from checks.c03 import Mgr, art

        n = art("N1", title=j, te=j)
        with Mgr({"news.tsv": n, "behaviors.tsv": "1\t" + j + "\t11/13/2019 8:36:57 AM\t\t" + j + "-1\n"}, {"news.tsv": n}) as m:
            for fn in (lambda: m.read_item_info("train"), lambda: m.read_impressions("train"), lambda: m.read_item_info(parse_entities=False)):
                try:
                    fn()
                except Exception:
                    pass
    else:
        for cls, f, reads in jobs[k]():
            with Z(cls, f) as m:
                for r in reads:
                    try:
                        getattr(m, r)()
                    except Exception:
                        pass
    ctx.step()
    ctx.check(not HITS, f"{k}: archive content was executed as code: {EVIL[i] if k == 'amazon' else j}")


def families(tier):
    return {
        "ratings": (rating_cases(tier), run_rating),
        "ml100k_items": (item100k_cases, run_item100k),
        "users": (user_cases, run_user),
        "ml1m_items": (item1m_cases, run_item1m),
        "neumf_test": (neumf_cases(tier), run_neumf),
        "citeulike": (cite_cases(tier), run_cite),
        "amazon_metadata": (meta_cases, run_meta),
        "content_is_data": (code_cases, run_code),
    }
