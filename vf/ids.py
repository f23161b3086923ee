"""Id columns of every kind a data frame can hold: name -> (k -> id, list of ids -> Series)."""


def plain(v):
    """NumPy's dates as pandas' ones, to be compared with them."""
    import numpy as np
    import pandas as pd

    return pd.Timestamp(v) if isinstance(v, np.datetime64) else pd.Timedelta(v) if isinstance(v, np.timedelta64) else v


def kinds():
    import numpy as np
    import pandas as pd

    def obj(vals):
        a = np.empty(len(vals), dtype=object)
        for k, v in enumerate(vals):
            a[k] = v
        return pd.Series(a)

    perm = [3, 0, 5, 1, 6, 2, 7, 4]
    return {
        "big": (lambda k: 2**60 + perm[k], lambda v: pd.Series(v, dtype="int64")),  # not told apart as floats
        "int8": (lambda k: perm[k] * 30 - 100, lambda v: pd.Series(v, dtype="int8")),
        "uint64": (lambda k: 2**63 + perm[k], lambda v: pd.Series(v, dtype="uint64")),
        "Int64": (lambda k: 2**55 + perm[k], lambda v: pd.Series(v, dtype="Int64")),
        "string": (lambda k: f"s{perm[k]}", lambda v: pd.Series(v, dtype="string")),
        "spaces": (lambda k: ["a", "a ", " a", "A", "", "a\t", "\u00e9", "e\u0301"][k], lambda v: obj(v)),
        "digits": (lambda k: ["1", "01", "1.0", "10", "2", "+1", "1e0", "\uff11"][k], lambda v: obj(v)),
        "cat": (lambda k: f"c{perm[k]}", lambda v: pd.Series(v, dtype="category")),
        "unused": (lambda k: perm[k] + 10, lambda v: pd.Series(pd.Categorical(v, categories=[99] + list(range(17, 9, -1)) + [98]))),
        "ordered": (lambda k: f"c{perm[k]}", lambda v: pd.Series(pd.Categorical(v, categories=[f"c{j}" for j in range(8)], ordered=True))),
        "day": (lambda k: pd.Timestamp(2020, 1, 1 + perm[k]), lambda v: pd.Series(v)),
        "ns": (lambda k: pd.Timestamp(1600000000 * 10**9 + perm[k]), lambda v: pd.Series(v)),
        "tz": (lambda k: pd.Timestamp(2020, 1, 1, perm[k], tz="Asia/Tokyo"), lambda v: pd.Series(v)),
        "delta": (lambda k: pd.Timedelta(seconds=perm[k]), lambda v: pd.Series(v)),
        "tiny": (lambda k: 1.0 + perm[k] * 2.0**-50, lambda v: pd.Series(v, dtype="float64")),  # not told apart in single precision
        "bytes": (lambda k: bytes([perm[k], 65]), lambda v: obj(v)),
    }


# kinds of which np.unique or a set of Python objects makes sense in a mixed-type-free column
TIMES = {
    "ns": lambda t: __import__("pandas").Timestamp(1600000000 * 10**9 + t),
    "sec": lambda t: __import__("pandas").Timestamp(2020, 1, 31, 23, 59, 58) + __import__("pandas").Timedelta(seconds=t),
    "month": lambda t: __import__("pandas").Timestamp(2019 + (9 + t) // 12, (9 + t) % 12 + 1, 15 - t),
    "tz": lambda t: __import__("pandas").Timestamp(2020, 10, 25, 0, 30 + 10 * t, tz="UTC").tz_convert("Europe/Berlin"),
    "big": lambda t: 2**60 + t,
    "dec": lambda t: [8, 9, 10, 11, 99, 100, 1000][t % 7],  # not in the order of their text
    "tiny": lambda t: 1.0 + t * 2.0**-50,
    "delta": lambda t: __import__("pandas").Timedelta(nanoseconds=t),
    "neg": lambda t: t - 1,
    "inf": lambda t: [-float("inf"), 0.0, float("inf")][t % 3],
    "date": lambda t: __import__("datetime").date(2020, 1, 30 + t) if t < 2 else __import__("datetime").date(2020, 2, t),
    "str": lambda t: ["2020-01-09", "2020-01-10", "2020-02-01"][t % 3],
    "uint8": lambda t: 253 + t,
    "bool": lambda t: t > 0,
}
TIME_DTYPE = {"uint8": "uint8", "big": "int64"}
