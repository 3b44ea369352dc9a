"""C31: plot helpers. Figures are recorded as they are saved (and rendered for a part of the cases)."""
from pbt.common import *

RULE = ("A case is a call of the colour helper (colormap names, lists of colours longer and shorter than the number of series, "
        "constants) or a history of 1..4 plot calls with generated matrices, labels (absent, matching, wrong count), colours, "
        "aspect ratios and scales, file names possibly repeated. What each call stores and draws is compared with its matrix. "
        "Non-trivial: a history with a labelled plot of at least 2 series or with a repeated name, or at least 3 colours.")
EXAMPLES = {"quick": 400, "thorough": 4000}
ASSUMPTIONS = ["matplotlib's own colormaps (those proplot registers cannot be resampled with the installed versions)",
               "webcolors compatibility shim so that the installed tikzplotlib works"]
MAPS = ["hsv", "viridis", "blues", "jet", "tab10"]
CONST = ["blue2", "navy", "r", "#102030", "0.5"]
COLS = ["navy", "royalblue", "forestgreen", "peru", "darkred", "k", "#00ff80"]


def strategy(st):
    cmap = st.one_of(st.sampled_from(MAPS), st.sampled_from(CONST), st.lists(st.sampled_from(COLS), min_size=1, max_size=6))

    @st.composite
    def plot(draw):
        r, c = draw(st.integers(1, 9)), draw(st.integers(1, 5))
        k = draw(st.sampled_from(["scatter", "series", "scatter", "series", "heatmap"]))
        d = {"f": k, "r": r, "c": c, "x": draw(blob(st, 2 * r * c)), "fl": draw(flavour(st)),
             "name": draw(st.sampled_from(["a", "b", "errors", "errors_0.5", "errors.2"])), "render": draw(st.integers(0, 5)) == 0}
        if k == "heatmap":
            d["cplx"] = draw(st.booleans())
            d["max"] = draw(st.sampled_from([None, None, 3.0]))
            d["min"] = draw(st.sampled_from([None, 0.0]))
            d["pn"] = draw(st.sampled_from([None, 0.5, 1.0]))
            d["cm"] = draw(st.sampled_from([None, None, "viridis"]))
        else:
            d["lab"] = draw(st.sampled_from(["none", "right", "right", "short", "long"]))
            d["s"] = draw(st.sampled_from([None, 2, 3.5]))
            d["ar"] = draw(st.sampled_from([None, None, 1, 0.25]))
            d["cm"] = draw(st.one_of(st.none(), cmap))
        return d
    col = st.fixed_dictionaries({"cm": cmap, "n": st.one_of(st.integers(1, 20), st.integers(1, 60))})
    return st.one_of(st.fixed_dictionaries({"color": st.lists(col, min_size=1, max_size=4)}),
                     st.fixed_dictionaries({"plots": st.lists(plot(), min_size=1, max_size=4)}))


def setup(ctx):
    import matplotlib
    matplotlib.use("agg")
    import webcolors
    if not hasattr(webcolors, "CSS3_HEX_TO_NAMES"):
        from webcolors import _definitions as d
        webcolors.CSS3_HEX_TO_NAMES = d._CSS3_HEX_TO_NAMES
    import os
    import matplotlib.figure as mf
    import src.identification.utils as u
    if not str(u.DATA_DIR).startswith(str(ctx.tmp)):
        raise HarnessError("plots would be saved in %s" % u.DATA_DIR)
    ctx.u = u
    ctx.saved = []
    ctx.render = False
    real = mf.Figure.savefig

    def savefig(fig, fname, *a, **k):
        ctx.saved.append((str(fname), snapshot(fig)))
        if ctx.render:
            return real(fig, fname, *a, **k)
        with open(str(fname), "w") as f:
            f.write("recorded")
    mf.Figure.savefig = savefig


def snapshot(fig):
    import numpy as np
    from matplotlib.colors import to_rgba
    from matplotlib.collections import QuadMesh
    out = []
    for ax in fig.axes:
        leg = ax.get_legend()
        out.append({"lines": [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float), to_rgba(l.get_color()),
                               l.get_label(), l.get_linestyle(), l.get_linewidth(), l.get_marker(), l.get_markersize()) for l in ax.lines],
                    "mesh": [np.array(m.get_array(), dtype=float) for m in ax.collections if isinstance(m, QuadMesh)],
                    "norm": [(type(m.norm).__name__, m.norm.vmin, m.norm.vmax, getattr(m.norm, "gamma", None), m.get_cmap().name)
                             for m in ax.collections if isinstance(m, QuadMesh)],
                    "aspect": ax.get_aspect(), "legend": None if leg is None else [t.get_text() for t in leg.get_texts()]})
    return out


def colours(cm, n):
    """the colours of n series"""
    import matplotlib.cm as mcm
    if isinstance(cm, list):
        return cm[:n] if len(cm) >= n else [cm[0]] * n
    if cm in MAPS:
        m = mcm.get_cmap(cm, n)
        return [m(i) for i in range(n)]
    return [cm] * n


def check(c, ctx):
    import os
    import numpy as np
    from matplotlib.colors import to_rgba
    import matplotlib.pyplot as plt
    import matplotlib.cm as mcm
    u = ctx.u
    if "color" in c:
        for q in c["color"]:
            cm, n = q["cm"], q["n"]
            what = "colours of %d series with %r" % (n, cm)
            got = u.map_color_colormap(list(cm) if isinstance(cm, list) else cm, n)
            require(isinstance(got, list) and len(got) == n, "%s: %r" % (what, got))
            if isinstance(cm, str) and cm in MAPS:
                want = np.array(colours(cm, n))
                g = np.array([to_rgba(x) for x in got])
                if n <= 20:
                    close(g, want, what, rtol=0, atol=1e-9)
                else:       # neighbouring levels may be hit by rounding
                    fine = mcm.get_cmap(cm)(np.arange(256)) if cm != "tab10" else want
                    d = np.abs(g[:, None, :] - np.concatenate((want, fine))[None]).max(2).min(1)
                    require(d.max() < 0.03, what + ": a colour is not in the colormap")
            else:
                require(got == colours(cm, n), "%s: %r" % (what, got))
        return {"labels": ["colours"], "nontrivial": max(q["n"] for q in c["color"]) >= 3}
    root = str(u.DATA_DIR)
    stored = {}
    try:
        plt.close("all")
        for k, d in enumerate(c["plots"]):
            r, w = d["r"], d["c"]
            x = reals(d["x"], d["fl"])
            m = x[:r * w].reshape((r, w))
            if d.get("cplx"):
                m = m + 1j * x[r * w:].reshape((r, w))
            m0, name, kw = m.copy(), d["name"], {}
            what = "plot %d, %s of a %dx%d matrix" % (k + 1, d["f"], r, w)
            ctx.render = d["render"]
            del ctx.saved[:]
            fig = os.path.join(root, name + (".png" if d["f"] == "heatmap" else ".pdf"))
            tex = os.path.join(root, "tikz", name + ".tex")
            for f in (fig, tex):
                if os.path.exists(f):
                    os.remove(f)
            if d["f"] == "heatmap":
                for a, b in (("minval", d["min"]), ("maxval", d["max"]), ("powernorm", d["pn"]), ("colormap", d["cm"])):
                    if b is not None:
                        kw[a] = b
            else:
                lab = {"none": None, "right": ["s%d" % i for i in range(w)], "short": ["s%d" % i for i in range(w - 1)],
                       "long": ["s%d" % i for i in range(w + 1)]}[d["lab"]]
                for a, b in (("labels", lab), ("s", d["s"]), ("ar", d["ar"]), ("colormap", d["cm"])):
                    if b is not None:
                        kw[a] = b
            getattr(u, "plot_" + d["f"])(m, name, **kw)
            require(np.array_equal(m, m0, equal_nan=True), what + ": the matrix was modified")
            stored[name] = m0
            for n, v in stored.items():
                f = os.path.join(root, "simulations_output", "plot_data", n + ".npz")
                require(os.path.isfile(f), "%s: data of %s not stored" % (what, n))
                z = np.load(f)
                require(list(z.keys()) == ["m"] and z["m"].dtype == v.dtype, "%s: contents of %s.npz" % (what, n))
                exact(z["m"], v, "%s: stored data of %s" % (what, n))
            require(os.path.isfile(fig) and os.path.getsize(fig) > 0, "%s: figure not saved" % what)
            shot = [s for f, s in ctx.saved if os.path.abspath(f) == os.path.abspath(fig)]
            require(len(shot) >= 1, "%s: figure not saved" % what)
            shot = shot[-1]
            if d["f"] == "heatmap":
                mesh = [a for a in shot[0]["mesh"]]
                require(len(mesh) == 1 and mesh[0].size == m.size, "%s: %d meshes drawn" % (what, len(mesh)))
                close(mesh[0].reshape(-1), np.abs(m0).reshape(-1), what + ": magnitudes drawn", rtol=1e-12)
                nt, lo, hi, g, cmn = shot[0]["norm"][0]
                require(abs(g - (d["pn"] or 0.5)) < 1e-12, "%s: exponent %r" % (what, g))
                big = np.abs(m0)
                proper = (d["max"] is None or big.min() < d["max"]) and (d["min"] is None or big.max() > d["min"])
                require(not proper or d["max"] is None or hi == d["max"], "%s: upper end of the scale %r" % (what, hi))
                require(not proper or d["min"] is None or lo == d["min"], "%s: lower end of the scale %r" % (what, lo))
                require(d["cm"] is None or cmn == d["cm"], "%s: colormap %r" % (what, cmn))
                continue
            lines = shot[0]["lines"]
            require(len(shot) == 1 and len(lines) == w, "%s: %d lines drawn" % (what, len(lines)))
            want = colours(d["cm"] if d["cm"] is not None else "hsv", w)
            for i, (lx, ly, col, name_i, ls, lw, mk, ms) in enumerate(lines):
                wi = "%s: series %d" % (what, i)
                exact(lx, np.arange(r), wi + " positions")
                exact(ly, m0[:, i], wi)
                close(np.array(col), np.array(to_rgba(want[i])), wi + ": colour", rtol=0, atol=1e-9)
                require((name_i == "s%d" % i) if d["lab"] == "right" else not str(name_i).startswith("s"), "%s: label %r" % (wi, name_i))
                s = d["s"] if d["s"] is not None else 10
                if d["f"] == "scatter":
                    require(mk == "o" and ms == s and (lw == 0 or ls == "None"), "%s: marker %r of size %r, line %r" % (wi, mk, ms, lw))
                else:
                    require(ls == "-" and lw == s and mk in ("None", None, ""), "%s: line %r of width %r, marker %r" % (wi, ls, lw, mk))
            require(shot[0]["legend"] == (["s%d" % i for i in range(w)] if d["lab"] == "right" else None), "%s: legend %r" % (what, shot[0]["legend"]))
            require(shot[0]["aspect"] == (d["ar"] if d["ar"] is not None else "auto"), "%s: aspect ratio %r" % (what, shot[0]["aspect"]))
            require(os.path.isfile(tex), what + ": no tikz file")
            rows = tikz(open(tex).read())
            require(len(rows) == w, "%s: %d series in the tikz file" % (what, len(rows)))
            for i, t in enumerate(rows):
                close(np.array(t), np.stack((np.arange(r), m0[:, i]), axis=1), "%s: series %d in the tikz file" % (what, i), rtol=1e-9)
    finally:
        ctx.render = False
        plt.close("all")
        for n in ("a", "b", "errors"):
            for f in (n + ".png", n + ".pdf", "tikz/" + n + ".tex", "simulations_output/plot_data/" + n + ".npz"):
                if os.path.exists(os.path.join(root, f)):
                    os.remove(os.path.join(root, f))
    names = [d["name"] for d in c["plots"]]
    return {"labels": [d["f"] for d in c["plots"]] + ["rendered" for d in c["plots"] if d["render"]],
            "nontrivial": len(set(names)) < len(names) or any(d.get("lab") == "right" and d["c"] >= 2 for d in c["plots"])}


def tikz(t):
    out = []
    for block in t.split("\\addplot")[1:]:
        body = block[block.index("{%") + 2:]
        body = body[:body.index("};")]
        out.append([[float(x) for x in l.split()] for l in body.strip().splitlines()])
    return out
