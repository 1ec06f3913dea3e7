"""Recording of indicator objects of the implementation."""
import warnings
from common import *
import market


def setup():
    global pd, np, ti, plt
    warnings.simplefilter("ignore")
    import pandas as pd, numpy as np
    import tti.indicators as ti
    import matplotlib.pyplot as plt
    catalog()


def cls(name):
    return getattr(ti, name)


def min_rows(name, p):
    """Only used to choose sizes of generated data; the judge is Catalog!MinRows."""
    fixed = {"AverageTrueRange": 14, "ChaikinOscillator": 10, "DirectionalMovementIndex": 28, "UltimateOscillator": 28,
             "KlingerOscillator": 55, "MassIndex": 25, "MovingAverageConvergenceDivergence": 26,
             "NegativeVolumeIndex": 2, "PositiveVolumeIndex": 2, "PriceAndVolumeTrend": 2, "ParabolicSAR": 2}
    if name in fixed:
        return fixed[name]
    if name in ("MedianPrice", "TypicalPrice", "Performance"):
        return 1
    if name == "EaseOfMovement":
        return max(2, p["period"])
    if name == "MovingAverage":
        return 22 if p["ma_type"] == "variable" else p["period"]
    if name == "RelativeMomentumIndex":
        return p["period"] + p["momentum_period"]
    if name == "RelativeStrengthIndex":
        return p["period"] + 1
    if name == "RelativeVolatilityIndex":
        return p["period"] + 10
    if name in ("StochasticMomentumIndex",):
        return p["period"]
    if name == "StochasticOscillator":
        return p["k_periods"]
    ints = [v for v in p.values() if isinstance(v, int)]
    return max(ints) if ints else 1


def warmup(name, p):
    """Rows needed until all columns have values (for generation only)."""
    base = min_rows(name, p)
    extra = {"DirectionalMovementIndex": 14, "MassIndex": 18, "IchimokuCloud": 78, "MovingAverageConvergenceDivergence": 10,
             "RelativeVolatilityIndex": 1, "ProjectionOscillator": 3}
    ints = [v for v in p.values() if isinstance(v, int)]
    return max(base + extra.get(name, 1), sum(ints) + 1)


SPECIAL = {
    "PriceOscillator": lambda r: dict(zip(("short_ma", "long_ma"), sorted(r.sample(range(1, 13), 2)))),
    "VolumeOscillator": lambda r: dict(zip(("short_period", "long_period"), sorted(r.sample(range(1, 10), 2)))),
    "Performance": lambda r: r.choice([{"mode": "LONG", "target": "1/20"}, {"mode": "LONG", "target": "0"},
                                       {"mode": "SHORT", "target": "-1/8"}, {"mode": "SHORT", "target": "0"},
                                       {"mode": "LONG", "target": "1/4"}]),
}


LARGE = [12, 14, 15, 20, 21, 26, 30, 40, 50, 60, 64, 100, 128, 150, 200]


def large_params(r, name):
    """Admissible parameters of the sizes that long-term charts use."""
    p = params(r, name)
    if name == "PriceOscillator":
        return dict(zip(("short_ma", "long_ma"), sorted(r.sample(LARGE, 2))))
    if name == "VolumeOscillator":
        return dict(zip(("short_period", "long_period"), sorted(r.sample(LARGE, 2))))
    ints = [q["name"] for q in catalog()[name]["params"] if q["kind"] == "int"]
    for k in ints:
        p[k] = r.choice(LARGE if len(ints) == 1 else LARGE[:10])
    return p


def params(r, name):
    """Random admissible parameters."""
    if name in SPECIAL:
        return SPECIAL[name](r)
    p = {}
    for q in catalog()[name]["params"]:
        k = q["kind"]
        if k == "int":
            p[q["name"]] = r.choice([q["min"], 1, 2, 3, 3, 4, 5, 6, 7, 9, int(q["default"])] if int(q["default"]) < 30
                                    else [1, 2, 3, 4, 5, 7, 9])
            p[q["name"]] = max(p[q["name"]], q["min"])
        elif k == "oneof":
            p[q["name"]] = r.choice(q["choices"])
        elif k == "str":
            p[q["name"]] = r.choice(sorted(q["choices"]))
        elif k == "positive":
            p[q["name"]] = r.choice(["2", "1", "1/2", "3/2", "5/2", "3"])
        elif k == "fraction":
            p[q["name"]] = r.choice(["1/10", "1/2", "1/4", "3/4", "1/100"])
    if name == "MovingAverage" and p["ma_type"] == "time_series":
        p["period"] = max(2, p["period"])
    return p


def frame(x, cols, start="2021-03-01", freq="D"):
    n = len(next(iter(x.values())))
    return pd.DataFrame({c: x[c] for c in cols}, index=pd.date_range(start, periods=n, freq=freq))


CALENDARS = ["days", "days", "weekdays", "hours", "gaps", "months", "old", "seconds"]


def calendar(r, n):
    """n ascending instants: the result of an indicator must not depend on how far they are apart."""
    kind = r.choice(CALENDARS)
    if kind == "gaps":
        at, out = pd.Timestamp("2019-12-27 16:00"), []
        for _ in range(n):
            out.append(at)
            at += pd.Timedelta(minutes=r.choice([1, 60, 1440, 1440, 4320, 20160]))
        return pd.DatetimeIndex(out, name=r.choice([None, "Date"]))
    start, freq = {"days": ("2021-03-01", "D"), "weekdays": ("2020-02-03", "B"), "hours": ("2021-12-31 20:00", "h"),
                   "months": ("1999-11-30", "ME"), "old": ("1969-12-20", "D"), "seconds": ("2024-02-28 23:59:50", "s")}[kind]
    return pd.date_range(start, periods=n, freq=freq, name=r.choice([None, "Date"]))


STORAGE = {"int": ("int64", "Int64"), "unsigned": ("uint64", "UInt64"), "narrow": ("int16", "Int16"), "wide": ("int32", "Int32"),
           "byte": ("uint8", "UInt8"), "single": ("float32", "Float32"), "nullable": ("Float64", "Float64")}


def stored(vals, kind):
    """The numbers in another representation, when that represents them exactly; missing ones as pandas' own."""
    if kind in ("num", "float"):
        return list(vals)
    plain, nullable = STORAGE[kind]
    present = [v for v in vals if v == v]
    dtype = plain if len(present) == len(vals) else nullable
    if kind not in ("single", "nullable"):
        info = np.iinfo(plain)
        if not all(math.isfinite(v) and v == int(v) and info.min <= v <= info.max for v in present):
            return list(vals)
        return pd.array([None if v != v else int(v) for v in vals], dtype=dtype)
    if not all(math.isfinite(v) and (kind == "nullable" or float(np.float32(v)) == v) for v in present):
        return list(vals)
    return pd.array([None if v != v else v for v in vals], dtype=dtype) if dtype[0] == "F" else np.array(vals, dtype=dtype)


def shaped(r, x, cols):
    """The input frame of data x: other calendars, other representations of its numbers."""
    how = r.random()
    kinds = {c: r.choice(sorted(STORAGE)) if how < 0.3 and r.random() < 0.6 else "num" for c in cols}
    idx = calendar(r, len(x[cols[0]]))
    return pd.DataFrame({c: pd.Series(stored(x[c], kinds[c]), index=idx) for c in cols}, index=idx)


def rows_of(df):
    return [[rat(v) for v in row] for row in df.to_numpy(dtype=object).tolist()]


def construct(name, p, df, fill=True):
    kw = pyparams(name, p)
    if not fill:
        kw["fill_missing_values"] = False
    return cls(name)(input_data=df, **kw)


def series_trace(i, name, p, x, fill=True, prefixes=()):
    """Records the indicator data of the full data and of prefixes."""
    cols = catalog()[name]["inputs"]
    n = len(x[cols[0]])
    t = {"id": i, "name": name, "p": dict(p, none=0), "fill": fill, "error": "", "pre": [],
         "x": {c: [rat(v) for v in x[c]] for c in cols}}
    t["valid"] = bool(all(not math.isnan(v) and v > 0 for c in cols for v in x[c]))
    df = shaped(rng("shape", i), x, cols)
    try:
        ind = construct(name, p, df.copy(), fill)
        d = ind.getTiData()
        t["names"] = [str(c) for c in d.columns]
        t["rows"] = rows_of(d)
        t["index"] = bool(d.index.equals(df.index[:len(d)]))
    except Exception as e:
        t.update(names=["error"], rows=[], index=False, error="%s: %s" % (type(e).__name__, e))
        return t
    for k in prefixes:
        try:
            d = construct(name, p, df.iloc[:k].copy(), fill).getTiData()
            t["pre"].append({"k": k, "rows": rows_of(d)})
        except Exception as e:
            t["pre"].append({"k": k, "rows": [["error"] * len(t["names"])] * k})
            t["error"] = "prefix %d: %s: %s" % (k, type(e).__name__, e)
    return t
