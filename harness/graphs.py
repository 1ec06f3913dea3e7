"""Reading graphs back from matplotlib."""
from common import *
import matplotlib.pyplot as plt
import matplotlib.dates as mdates
import numpy as np


def day_of(v):
    """Matplotlib day number of a plotted x value."""
    if isinstance(v, np.datetime64) or hasattr(v, "year"):
        return float(mdates.date2num(v))
    return float(v)


def read(figure=None):
    """Title, labels and panels with their lines (label, x values, y values) of the current figure."""
    fig = figure or plt.gcf()
    sup = getattr(fig, "_suptitle", None)
    sup = fig.get_suptitle() if hasattr(fig, "get_suptitle") else (sup.get_text() if sup else "")
    ylab = fig.get_supylabel() if hasattr(fig, "get_supylabel") else ""
    panels = []
    for ax in fig.axes:
        lines = []
        for ln in ax.get_lines():
            xs, ys = ln.get_xdata(orig=True), ln.get_ydata(orig=True)
            ys = np.ma.filled(np.ma.asarray(ys, dtype=float), math.nan)
            lines.append({"label": str(ln.get_label()), "x": [day_of(v) for v in np.asarray(xs)], "y": [rat(v) for v in ys.tolist()]})
        panels.append({"lines": lines, "xlabel": ax.get_xlabel()})
    return {"title": sup, "ylabel": ylab, "panels": panels}


def days(index):
    return [float(v) for v in mdates.date2num(index.to_pydatetime())]
