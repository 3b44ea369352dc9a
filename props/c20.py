"""C20: generate_loads for single- and three-phase networks."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a network (1..5 loads, arbitrary ids, symmetric and asymmetric loads), a load source (household files "
        "with half a day to three days of 1..2 weeks in any order, or Gaussian), nodes declared constant (also nodes without load, as list or array), "
        "a constantness and random numbers drawn before. Non-trivial: at least one but not all loads constant, at least 2 "
        "loads.")
EXAMPLES = {"quick": 260, "thorough": 2500}


def strategy(st):
    @st.composite
    def case(draw):
        three = draw(st.booleans())
        d = draw(N.strategy(st, 2, 6, three=three, extra=0))
        ids = [b["id"] for b in d["buses"]]
        k = draw(st.sampled_from([None, "some", "some", "some", "all", "empty"]))
        const = None if k is None else [] if k == "empty" else ids if k == "all" else \
            draw(st.lists(st.sampled_from(ids), unique=True, min_size=1)) + draw(st.lists(st.integers(41, 50), max_size=2))
        return {"three": three, "net": d, "const": const, "src": draw(st.sampled_from(["house", "gauss", "house"])),
                "weeks": draw(st.sampled_from([[0], [1], [1, 0], [0, 1]])), "days": draw(st.sampled_from([None, None, 1, 2, 3])), "h": draw(st.integers(2, 5)),
                "sd": draw(st.sampled_from([0.0, 0.05, 0.3])), "a": draw(st.sampled_from([0.84, 0.0, 1.0, 0.5])),
                "seed": draw(st.integers(0, 1000)), "pre": draw(st.integers(0, 5)), "arr": draw(st.booleans()),
                "scale": draw(st.sampled_from([0.05, 0.5]))}
    return case()


def setup(ctx):
    import numpy as np
    from pathlib import Path
    d = Path(ctx.tmp) / "house"
    d.mkdir(exist_ok=True)
    rng = np.random.RandomState(5)
    rows = 2 * 7 * 24 * 60
    ctx.house = {}
    for h in (2, 3, 4, 5):
        P = np.round(300 + 900 * rng.rand(rows, h) ** 3 + 200 * np.sin(np.arange(rows)[:, None] / 200.0 + np.arange(h)))
        Q = np.round(60 + 200 * rng.rand(rows, h) ** 2)
        np.save(str(d / ("p%d.npy" % h)), P)
        np.save(str(d / ("q%d.npy" % h)), Q)
        ctx.house[h] = (str(d / ("p%d.npy" % h)), str(d / ("q%d.npy" % h)), P, Q)


def check(c, ctx):
    import numpy as np
    from conf import simulation
    from src.simulation import run, run3ph
    from src.simulation.net_templates_3ph import ieee123_types
    from src.simulation.simulation import SimulatedNet
    from src.simulation.simulation_3ph import SimulatedNet3P
    cc = ctx.conf
    d, three = c["net"], c["three"]
    mod = run3ph if three else run
    bd = N.bus_data(d, scale=c["scale"])
    net = SimulatedNet3P(ieee123_types, bd, N.line_data(d, True)) if three else SimulatedNet(bd, N.line_data(d))
    net.name = "pbt20"
    weeks, days = np.array(c["weeks"]), c.get("days") or len(c["weeks"])        # split equally over the selected weeks
    per = days * 1440 // len(weeks)
    cc.seed, simulation.load_constantness = c["seed"], c["a"]
    const = None if c["const"] is None else (np.array(c["const"]) if c["arr"] and c["const"] else list(c["const"]))
    if c["src"] == "house":
        fp, fq, P, Q = ctx.house[c["h"]]
        params = lambda k: (fp, fq, weeks, days, k)
    else:
        params = lambda k: (None, None, c["sd"], days, k)
    T = days * 24 * 60
    before = N.snapshot(net)
    np.random.seed(c["pre"])
    np.random.rand(c["pre"])

    def gen(k):
        r = mod.generate_loads(net, params(k), verbose=False)
        return (list(r[:2]) + list(r[2]), r[3]) if three else (list(r[:2]), r[2])
    got, times = gen(const)
    N.same_snapshot(before, N.snapshot(net), "generate_loads", require)
    names = ["p_mw", "q_mvar"] + (["p_a_mw", "p_b_mw", "p_c_mw", "q_a_mvar", "q_b_mvar", "q_c_mvar"] if three else [])
    require(len(got) == len(names), "%d load tables" % len(got))
    for name, g in zip(names, got):
        tab = net.load if name in ("p_mw", "q_mvar") else net.asymmetric_load
        require(g.shape == (T, len(tab)), "%s: shape %r, expected %r" % (name, g.shape, (T, len(tab))))
    close(np.asarray(times, dtype=float), 60.0 * np.arange(T), "times: one row per minute", rtol=1e-12)
    # saved loads
    r = mod.generate_loads(net, None, verbose=False)
    back, t2 = (list(r[:2]) + list(r[2]), r[3]) if three else (list(r[:2]), r[2])
    for name, g, b in zip(names, got, back):
        exact(b, g, name + " read back")
    exact(t2, np.asarray(times), "times read back")
    # independent of earlier random numbers
    np.random.seed(c["pre"] + 77)
    again, _ = gen(const)
    for name, g, b in zip(names, got, again):
        exact(b, g, name + " of a second generation")
    # without constant nodes
    base, _ = gen(None)
    blended = 0
    for name, g, b in zip(names, got, base):
        tab = net.load if name in ("p_mw", "q_mvar") else net.asymmetric_load
        for k, (bus, nom) in enumerate(zip(tab.bus.values, tab[name].values)):
            if c["const"] is not None and int(bus) in c["const"]:
                blended += 1
                want = (1 - c["a"]) * b[:, k] + c["a"] * nom
                close(g[:, k], want, "%s of the constant node %d" % (name, bus), rtol=1e-10, scale=abs(nom) + float(np.max(np.abs(want))) + 1e-12)
            else:
                exact(g[:, k], b[:, k], "%s of the node %d, which is not constant" % (name, bus))
            if c["src"] == "gauss":
                s = c["sd"] * nom
                require(abs(b[:, k].mean() - nom) <= 6 * s / T ** 0.5 + 1e-12, "%s of node %d: mean %.4g, nominal %.4g" % (name, bus, b[:, k].mean(), nom))
                require(abs(b[:, k].std() - s) <= 6 * s / (2 * T) ** 0.5 + 1e-12, "%s of node %d: deviation %.4g, expected %.4g" % (name, bus, b[:, k].std(), s))
            else:
                M = P if name[0] == "p" else Q
                W = np.vstack([M[w * 7 * 1440:w * 7 * 1440 + per] for w in c["weeks"]]) / 1e6
                q = nom / np.mean(np.percentile(np.abs(W), 90, axis=0))
                cnt = np.linalg.lstsq(W, b[:, k], rcond=None)[0]
                require(float(np.max(np.abs(cnt - np.round(cnt)))) < 1e-5 * (1 + q), "%s of node %d is no sum of households" % (name, bus))
                close(W @ np.round(cnt), b[:, k], "%s of node %d rebuilt from its households" % (name, bus), rtol=1e-8)
                if abs(q - np.floor(q) - 0.5) > 1e-6:
                    require(int(np.round(cnt).sum()) == int(np.floor(q + 0.5)), "%s of node %d: %d households, expected %.3f" % (name, bus, np.round(cnt).sum(), q))
    if c["src"] == "gauss" and c["sd"] > 0:
        cols = [(g[:, k] - g[:, k].mean()) / g[:, k].std() for g in base for k in range(g.shape[1]) if g[:, k].std() > 0]
        for i in range(len(cols)):
            for j in range(i):
                require(abs(float((cols[i] * cols[j]).mean())) < 6.5 / T ** 0.5, "random loads coupled")
    nl = len(net.load) + len(net.asymmetric_load)
    return {"labels": ["three" if three else "single", c["src"], "a=%g" % c["a"], "weeks=%d" % days],
            "nontrivial": nl >= 2 and 0 < blended and c["a"] > 0}
