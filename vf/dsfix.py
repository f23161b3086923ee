"""Small synthetic copies of every public data set the package can download."""
import functools
import gzip
import io
import json
import zipfile


def mkzip(files, stored=False):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED) as z:
        for k, v in files.items():
            zi = zipfile.ZipInfo(k, (2020, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED
            z.writestr(zi, v if isinstance(v, bytes) else v.encode())
    return b.getvalue()


def _pad(n):
    """incompressible, deterministic"""
    import hashlib

    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b"%d" % i).digest()
        i += 1
    return out[:n]


NEU = "https://raw.githubusercontent.com/tohtsky/neural_collaborative_filtering/master/Data/"
AMZ = "http://snap.stanford.edu/data/amazon/productGraph/categoryFiles/"
HF = "https://huggingface.co/datasets/yjw1029/MIND/resolve/main/"
AZ = "https://mind201910small.blob.core.windows.net/release/"


def mind_files(split):
    k = 1 if split == "train" else 2
    ent = json.dumps([{"WikidataId": f"Q{k}"}])
    return {
        "behaviors.tsv": f"1\tU1\t11/13/2019 8:36:57 AM\tN0\tN{k}-1 N9-0\n2\tU2\t11/13/2019 9:00:00 PM\t\tN{k}-0 N9-1\n",
        "news.tsv": f"N{k}\tnews\tworld\tT{k}\tA\thttps://x/{k}\t{ent}\t[]\n",
        "entity_embedding.vec": f"Q{k}\t0.5\t0.25\n",
        "relation_embedding.vec": f"R{k}\t0.5\t0.25\n",
    }


@functools.lru_cache(maxsize=None)
def fixture(name, pad=0):
    """{'urls': {url: body}, 'files': {archive name: {url,...}}}"""
    p = {"pad.bin": _pad(pad)} if pad else {}
    if name == "ml100k":
        z = mkzip({
            "ml-100k/u.data": "1\t2\t5\t0\n1\t3\t4\t86400\n2\t2\t1\t5\n",
            "ml-100k/u.genre": "unknown|0\nAction|1\n",
            "ml-100k/u.item": "1|A|01-Jan-1995||http://x|0|1\n2|B|02-Jan-1995||http://y|1|0\n",
            "ml-100k/u.user": "1|24|M|x|85711\n2|53|F|y|94043\n",
            **p})
        return {"http://files.grouplens.org/datasets/movielens/ml-100k.zip": z}
    if name == "ml1m":
        z = mkzip({
            "ml-1m/ratings.dat": "1::2::5::0\n1::3::4::86400\n",
            "ml-1m/movies.dat": "1::A (1995)::X|Y\n2::B (1996)::X\n",
            "ml-1m/users.dat": "1::F::1::10::48067\n2::M::56::16::70072\n",
            **p})
        return {"http://files.grouplens.org/datasets/movielens/ml-1m.zip": z}
    if name == "ml20m":
        z = mkzip({"ml-20m/ratings.csv": "userId,movieId,rating,timestamp\n1,2,3.5,0\n1,3,4.0,86400\n", **p})
        return {"http://files.grouplens.org/datasets/movielens/ml-20m.zip": z}
    if name == "citeulike":
        z = mkzip({
            "citeulike-a-master/users.dat": "2 0 1\n1 1\n",
            "citeulike-a-master/raw-data.csv": '"doc.id","title","raw.abstract"\n"1","a","b"\n"2","c","d"\n',
            **p})
        return {"https://github.com/tohtsky/citeulike-a/archive/refs/heads/master.zip": z}
    if name in ("neumf-ml", "neumf-pin"):
        base = "ml-1m" if name == "neumf-ml" else "pinterest-20"
        k = 3 if name == "neumf-ml" else 4
        n = max(2, pad // 12)
        return {
            NEU + base + ".train.rating": "".join(f"{i}\t{i + k}\t5\t{978300000 + i}\n" for i in range(n)).encode(),
            NEU + base + ".test.negative": "".join(f"({i},{i + 9})\t{i + 1}\t{i + 2}\n" for i in range(n)).encode(),
        }
    if name == "amazon":
        n = max(2, pad // 12)
        meta = "".join(repr({"asin": f"B{i}", "title": f"t{i}", "price": 1.5, "categories": [["a"]]}) + "\n" for i in range(n))
        return {
            AMZ + "ratings_Digital_Music.csv": "".join(f"U{i},B{i},5.0,{978480000 + i}\n" for i in range(n)).encode(),
            AMZ + "meta_Digital_Music.json.gz": gzip.compress(meta.encode(), mtime=0),
        }
    if name.startswith("mind-"):
        _, size, src = name.split("-")
        base = HF if src == "hf" else AZ
        return {
            f"{base}MIND{size}_{s}.zip": mkzip({**{f"MIND{size}_{s}/{k}": v for k, v in mind_files(s).items()}, **p})
            for s in ("train", "dev")
        }
    raise KeyError(name)


SINGLE = ["ml100k", "ml1m", "ml20m", "citeulike"]
ALL = SINGLE + ["neumf-ml", "neumf-pin", "amazon", "mind-small-hf", "mind-small-az", "mind-large-hf", "mind-large-az"]


def paths(name, d):
    """archive paths handed to the manager: {key: path}"""
    import os

    if name.startswith("mind-"):
        return {"train": os.path.join(d, "t.zip"), "dev": os.path.join(d, "v.zip")}
    return {"zip": os.path.join(d, "a.zip")}


def url_of(name, key):
    return [u for u in fixture(name) if key == "zip" or f"_{key}.zip" in u]


def construct(name, d, force, token=None, kind=None):
    """kind: how the archive path is passed (str / Path)"""
    import pathlib

    from irspack import dataset as ds

    P = pathlib.Path if kind == "path" else str
    ps = {k: P(v) for k, v in paths(name, d).items()}
    if name.startswith("mind-"):
        _, size, src = name.split("-")
        return ds.MINDDataManager(
            ps["train"], ps["dev"], size=size, force_download=force,
            download_source="huggingface" if src == "hf" else "azure", hf_token=token,
        )
    cls = {
        "ml100k": ds.MovieLens100KDataManager, "ml1m": ds.MovieLens1MDataManager,
        "ml20m": ds.MovieLens20MDataManager, "citeulike": ds.CiteULikeADataManager,
        "neumf-ml": ds.NeuMFML1MDownloader, "neumf-pin": ds.NeuMFMPinterestDownloader,
        "amazon": ds.AmazonMusicDataManager,
    }[name]
    return cls(ps["zip"], force_download=force)


def read_all(name, m):
    """Everything the manager can read, as a comparable value."""
    def dump(*dfs):
        return [json.loads(df.reset_index().to_json(orient="split", date_format="iso")) for df in dfs]

    try:
        if name == "ml100k":
            it, g = m.read_item_info()
            return dump(m.read_interaction(), m.read_user_info(), it, g)
        if name == "ml1m":
            return dump(m.read_interaction(), m.read_user_info(), m.read_item_info())
        if name == "ml20m":
            return dump(m.read_interaction())
        if name == "citeulike":
            return dump(m.read_interaction(), m.read_item_meta())
        if name.startswith("neumf"):
            return dump(*m.read_train_test())
        if name == "amazon":
            return dump(m.read_interaction(), m.read_metadata())
        return dump(
            m.read_behaviors("train"), m.read_behaviors("dev"), m.read_impressions(), m.read_interaction(),
            m.read_item_info(), m.read_entity_embeddings("dev"), m.read_relation_embeddings("train"),
        )
    finally:
        if hasattr(m, "close"):
            m.close()
        else:
            getattr(m, "zf", io.BytesIO()).close()


def archive_bytes(name, key, pad=0):
    """A complete archive as a previous successful download would have left it."""
    fx = fixture(name, pad)
    us = [u for u in fx if key == "zip" or f"_{key}.zip" in u]
    if len(us) == 1:
        return fx[us[0]]
    bodies = [fx[u] for u in us]
    if name.startswith("neumf"):
        return mkzip({"train": bodies[0], "test": bodies[1]})
    return mkzip({"amazon-music/ratings.csv": bodies[0], "amazon-music/music-meta.json": gzip.decompress(bodies[1])})
