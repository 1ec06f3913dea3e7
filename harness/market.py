"""Market data for the recorded traces: dates with prices on a dyadic grid, so that sums are exact in floats."""
from common import *

COLUMNS = ["open", "high", "low", "close", "volume"]


def bars(r, n, style=None):
    """n valid bars (low <= open, close <= high; positive) made of a sequence of market regimes."""
    unit = r.choice([1, 1, 0.5, 0.25])
    style = style or r.choice(["mixed", "mixed", "mixed", "walk", "flat", "extreme", "trend", "rough", "wild", "bare"])
    out = {c: [] for c in COLUMNS}
    price = r.randint(40, 400) * unit
    vol = r.choice([1, 8, 1000, 125000])
    left, regime = 0, "walk"
    for i in range(n):
        if left == 0:
            regime = {"walk": "walk", "flat": "flat", "trend": r.choice(["up", "down"])}.get(style) or r.choice(
                ["up", "down", "flat", "walk", "gap", "inside", "doji", "spike", "wave", "same"])
            left = r.randint(1, 12 if style != "rough" else 3)
        left -= 1
        prev = price
        volume = vol * r.choice([1, 1, 2, 3, 4, 5, 8])
        rng_ = r.choice([0, 1, 2, 2, 4, 4, 8, 16]) * unit
        if style == "wild":         # moves by whole factors, days without any range, volumes of all sizes
            regime = "wild"
            rng_ = r.choice([0, 0, 0, 1, 16, 64]) * unit
            volume = r.choice([1, 2, 8, 1000, 125000, 8000000])
            price = prev * r.choice([0.25, 0.5, 1, 1, 2, 4, 8])
        if regime == "up":
            price = prev + r.choice([1, 1, 2, 4]) * unit
        elif regime == "down":
            price = prev - r.choice([1, 1, 2, 4]) * unit
        elif regime == "walk":
            price = prev + r.randint(-6, 6) * unit
        elif regime == "gap":
            price = prev + r.choice([-30, -17, 19, 33]) * unit
        elif regime == "spike":
            price = prev * r.choice([0.5, 1, 2]) if style == "extreme" else prev + r.choice([-12, 12]) * unit
            volume = vol * r.choice([1, 50])
        elif regime == "wave":
            price = prev + (3 if i % 4 < 2 else -3) * unit
        if style == "bare":         # days without any range, whatever the price does
            rng_ = 0
        if regime in ("flat", "same"):
            volume = out["volume"][-1] if out["volume"] else volume
            if regime == "flat" and r.random() < 0.7:
                rng_ = 0
        price = max(4 * unit, round(price / unit) * unit)
        if price > 5000:
            price = 300 * unit
        low = max(unit, price - unit * int(r.random() * (rng_ / unit + 1)))
        high = low + rng_ if low + rng_ >= price else price
        if regime == "same" and out["close"]:
            o, high, low, price = (out[c][-1] for c in ("open", "high", "low", "close"))
        else:
            k = r.randint(0, int((high - low) / unit)) if high > low else 0
            o = low + k * unit
            if regime == "doji" or style == "bare":
                o = price
        for c, v in zip(COLUMNS, (o, high, low, price, volume)):
            out[c].append(float(v))
    return out


# Scaled markets: (price factor, volume factor); all powers of two, so that sums stay exact.
SCALES = {"plain": (1, 1), "tiny": (2.0 ** -10, 1), "small": (2.0 ** -5, 1), "huge": (1024, 1), "big volume": (1, 2.0 ** 20),
          "part volume": (1, 2.0 ** -6), "crumbs": (1, 2.0 ** -24)}
# Sums, comparisons or roundings of these decide whether something is zero, equal or whole: floats answer as the
# definition does only where every sum is exact (the order of a float computation is not part of the definition).
DEGENERATE = {n: {"cents"} for n in (
    "CommodityChannelIndex", "KlingerOscillator", "ChandeMomentumOscillator", "IntradayMomentumIndex", "MovingAverage",
    "VerticalHorizontalFilter", "RelativeVolatilityIndex", "StochasticOscillator", "UltimateOscillator", "RangeIndicator",
    "DirectionalMovementIndex", "ParabolicSAR", "AccumulationDistributionLine", "ChaikinOscillator")}
DEGENERATE.update({n: {"cents", "tiny", "small"} for n in ("ProjectionOscillator", "RelativeStrengthIndex")})
# The rules of these compare with a product or an average of prices, rounded as floats are.
INEXACT_RULES = {n: {"cents"} for n in (
    "AverageTrueRange", "MedianPrice", "TypicalPrice", "StandardDeviation", "Momentum", "VerticalHorizontalFilter", "MassIndex",
    "ChaikinOscillator", "NegativeVolumeIndex", "PositiveVolumeIndex")}


def vary(r, x, name, rules=False):
    """The same market in other units: penny stocks and indexes, parts of shares, no trade at all, prices in cents."""
    kinds = [k for k in ["plain"] * 6 + ["tiny", "small", "huge", "big volume", "part volume", "crumbs", "no trade", "cents", "cents"]
             if k not in DEGENERATE.get(name, ()) and not (rules and k in INEXACT_RULES.get(name, ()))]
    kind = r.choice(kinds)
    if kind == "no trade":
        return dict(x, volume=[0.0 if r.random() < 0.25 else v for v in x["volume"]])
    if kind == "cents":
        return {c: [v if c == "volume" else round(v * 0.04, 2) if v == v else v for v in x[c]] for c in x}
    a, b = SCALES[kind]
    return {c: [v * (b if c == "volume" else a) for v in x[c]] for c in x}


def holes(r, x, cols, share=0.15):
    """Missing values: leading, trailing, isolated and in runs."""
    n = len(next(iter(x.values())))
    y = {c: list(x[c]) for c in cols}
    for c in cols:
        kind = r.choice(["none", "lead", "trail", "some", "run", "all", "some"])
        if kind == "lead":
            for i in range(r.randint(1, max(1, n // 3))):
                y[c][i] = math.nan
        elif kind == "trail":
            for i in range(r.randint(1, max(1, n // 3))):
                y[c][n - 1 - i] = math.nan
        elif kind == "some":
            for i in range(n):
                if r.random() < share:
                    y[c][i] = math.nan
        elif kind == "run":
            a = r.randrange(n)
            for i in range(a, min(n, a + r.randint(2, 6))):
                y[c][i] = math.nan
        elif kind == "all" and r.random() < 0.1:
            y[c] = [math.nan] * n
    return y
