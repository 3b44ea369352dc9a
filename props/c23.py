"""C23: add_noise_and_filter for single- and three-phase networks."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a network (2..6 buses, 2..3 with three phases, arbitrary ids and order, one or two grid connections anywhere, symmetric and asymmetric loads), "
        "measurements (one column per bus or per bus and phase), sampling frequency and number of steps (block length 1..8, up to a whole block of samples left over), "
        "noise levels, equivalent or exact noise, safety factor (one per phase), seed and earlier random state. The noise of "
        "every column is compared with its own sensor's rating at 6.5 sigma. Non-trivial: block length at least 2, at least "
        "2 different nonzero ratings and noise on voltages and currents.")
EXAMPLES = {"quick": 320, "thorough": 5000}


def strategy(st):
    sd = st.sampled_from([0.0, 1e-4, 1e-3, 0.004])

    @st.composite
    def case(draw):
        three = draw(st.booleans())
        d = draw(N.strategy(st, 2, 3 if three else 6, three=three, extra=0, neg=True, grids=draw(st.sampled_from([1, 1, 2]))))
        return {"lay": draw(layouts(st)), "three": three, "net": d, "f": draw(st.integers(1, 8)), "rows": draw(st.sampled_from([150, 200, 200, 450])),
                "ragged": draw(st.sampled_from([0, 1, 2, 3, 90, 149])), "t": draw(st.integers(2, 6)), "dt": draw(st.sampled_from([60.0, 60.0, 1.0])),
                "vm": draw(sd), "im": draw(st.sampled_from([0.0, 1e-3, 0.01])), "vp": draw(sd), "ip": draw(sd), "eq": draw(st.booleans()),
                "sf": draw(st.lists(st.sampled_from([4.0, 1.0, 2.0, 0.5]), min_size=3, max_size=3)),
                "seed": draw(st.integers(0, 1000)), "pre": draw(st.integers(0, 9)), "ph": draw(st.integers(0, 999)),
                "col": draw(st.booleans()), "scale": draw(st.sampled_from([0.5, 0.1])), "verbose": draw(st.booleans())}
    return case()


def ratings(net, d, three, sf):
    import numpy as np
    """squared nominal load of every column, total at the grid connection"""
    ids = [b["id"] for b in d["buses"]]
    pcc = [k for k, b in enumerate(d["buses"]) if b["t"] == 3]
    if not three:
        s = np.zeros(len(ids))
        for b, p, q in zip(net.load.bus.values, net.load.p_mw.values, net.load.q_mvar.values):
            s[ids.index(b)] += p * p + q * q
        s[pcc] = s.sum()              # every connection can feed all loads
        return s * sf[0]
    s = np.zeros((len(ids), 3))
    for b, p, q in zip(net.load.bus.values, net.load.p_mw.values, net.load.q_mvar.values):
        s[ids.index(b)] += p * p + q * q
    a = net.asymmetric_load
    for k, b in enumerate(a.bus.values):
        for m, n in enumerate("abc"):
            s[ids.index(b), m] += a["p_%s_mw" % n].values[k] ** 2 + a["q_%s_mvar" % n].values[k] ** 2
    s[pcc] = s.sum(0)
    return (s * np.array(sf)).reshape(-1)


def build(d, three, scale):
    from src.simulation.net_templates_3ph import ieee123_types
    from src.simulation.simulation import SimulatedNet
    from src.simulation.simulation_3ph import SimulatedNet3P
    bd = N.bus_data(d, scale=scale)
    for b in bd:
        if b.type == 3 and not three:       # the rating of the connection of these networks should not dwarf the others
            b.Pd, b.Qd = 0.1 * scale, 0.1 * scale
    net = SimulatedNet3P(ieee123_types, bd, N.line_data(d, True)) if three else SimulatedNet(bd, N.line_data(d))
    net.name = "pbt23"
    return net


def moments(e, sd, what, slack, T):
    if sd == 0:
        require(float(abs(e).max()) <= 1e-11 + slack, "%s: noise of %.3g where none is configured" % (what, float(abs(e).max())))
        return False
    lim = 6.5 / T ** 0.5
    require(abs(e.mean()) <= lim * sd + slack, "%s: mean error %.3g for a deviation of %.3g" % (what, e.mean(), sd))
    r = e.std()
    require(abs(r - sd) <= 0.75 * lim * sd + slack, "%s: deviation %.4g, expected %.4g" % (what, r, sd))
    return True


def relative():
    """Is the phase noise scaled with the phase?  (the finding listed for C21)"""
    import numpy as np
    from src.simulation.noise import add_polar_noise_to_measurement
    np.random.seed(0)
    return np.angle(add_polar_noise_to_measurement(np.ones((4000, 1)) * np.exp(0.1j), 0.0, 0.01) * np.exp(-0.1j)).std() < 0.003


def check(c, ctx):
    import numpy as np
    from src.simulation import run, run3ph
    cc = ctx.conf
    d, three = c["net"], c["three"]
    mod = run3ph if three else run
    net = build(d, three, c["scale"])
    n = len(d["buses"]) * (3 if three else 1)
    rng = np.random.RandomState(c["ph"])
    t, f = c["t"], c["f"]
    times = c["dt"] * np.arange(t)
    ph = rng.choice([-1, 1], size=2 * n) * (0.4 + 2.2 * rng.rand(2 * n))
    data = (0.5 + rng.rand(2 * n)) * (1 + 0.02 * rng.randn(t, 2 * n)) * np.exp(1j * (ph + 0.02 * rng.randn(t, 2 * n)))
    volt, curr = (layout(a.copy(), c.get("lay", 0)) for a in (data[:, :n], data[:, n:]))
    big = times[-1]
    total = f * c["rows"] + c["ragged"]
    fmeas = total / big
    steps = c["rows"]
    total = round(big * fmeas)
    block = total // steps
    levels = (c["vm"], c["im"], c["vp"], c["ip"])
    sf = np.array(c["sf"]) if three else c["sf"][0]
    params = levels + (c["eq"], sf)
    cc.seed = c["seed"]
    before = N.snapshot(net)
    tt = times.reshape(-1, 1) if c["col"] else times.copy()

    def go(pre, **kw):
        np.random.seed(pre)
        return mod.add_noise_and_filter(net, volt, curr, tt, fmeas, steps, params, **dict({"verbose": c["verbose"]}, **kw))
    res = go(c["pre"])
    require(len(res) == 6, "%d results" % len(res))
    nv, ni, v, i, rate, fp = res
    exact(volt, data[:, :n], "voltages unchanged")
    exact(curr, data[:, n:], "currents unchanged")
    exact(np.ravel(tt), times, "times unchanged")
    N.same_snapshot(before, N.snapshot(net), "add_noise_and_filter", require)
    require(int(fp) == block, "block length %r, expected %d" % (fp, block))
    want = ratings(net, d, three, c["sf"])
    close(np.asarray(rate), want, "sensor ratings", rtol=1e-10)
    # the noise-free series
    if c["eq"]:
        ts, fb = np.linspace(0, big, round(big * fmeas / block)), 1
    else:
        ts, fb = np.linspace(0, big, total), block
    R = len(ts) // fb
    clean = np.empty((len(ts), 2 * n), dtype=complex)
    for k in range(2 * n):
        clean[:, k] = np.interp(ts, times, data[:, k].real) + 1j * np.interp(ts, times, data[:, k].imag)
    avg = clean[:R * fb].reshape(R, fb, 2 * n).mean(1)
    got = np.hstack((np.asarray(v), np.asarray(i)))
    close(got, avg, "noise-free series", rtol=1e-10)
    noisy = np.hstack((np.asarray(nv), np.asarray(ni)))
    require(noisy.shape == got.shape, "noisy series of shape %r" % (noisy.shape,))
    # noise of every column
    ratio = noisy / got
    em, ep = np.abs(ratio) - 1, np.angle(ratio) / (np.angle(got) if relative() else 1.0)
    sm = np.concatenate((np.full(n, levels[0]), levels[1] * want)) / block ** 0.5
    sp = np.concatenate((np.full(n, levels[2]), np.full(n, levels[3]))) / block ** 0.5
    active, cols = 0, []
    for k in range(2 * n):
        nm = "%s column %d" % ("voltage" if k < n else "current", k % n)
        # within a block: curvature of the phase noise, variation of the signal
        q = 0 if fb == 1 else 4 * fb * (3 * sp[k]) ** 2 + 1e-9
        q += 0 if fb == 1 else 0.03 * (sm[k] + sp[k])
        a = moments(em[:, k], sm[k], nm + " magnitude", q, R)
        b = moments(ep[:, k], sp[k], nm + " phase", 0 if fb == 1 else 3 * fb * (sm[k] + 3 * sp[k]) * 3 * sp[k] + 0.03 * (sm[k] + sp[k]) + 1e-9, R)
        active += a or b
        if a and sm[k] > 20 * q:
            cols.append((nm + " magnitude", em[:, k] / sm[k]))
    for x in range(len(cols)):
        for y in range(x):
            require(abs(float((cols[x][1] * cols[y][1]).mean())) < 7.5 / R ** 0.5, "%s coupled with %s" % (cols[x][0], cols[y][0]))
    # reproducible, stored
    again = go(c["pre"] + 50, verbose=False)
    for a, b, nm in zip(res, again, ("noisy voltages", "noisy currents", "voltages", "currents", "ratings", "block length")):
        exact(b, a, nm + " of a second call")
    if any(levels) and c["pre"] % 3 == 0:
        cc.seed = c["seed"] + 1
        other = go(c["pre"], verbose=False)
        require(not active or not (np.array_equal(other[0], nv) and np.array_equal(other[1], ni)), "noise does not depend on the configured seed")
        exact(other[2], v, "voltages do not depend on the seed")
        cc.seed = c["seed"]
        go(0, verbose=False)
    back = mod.add_noise_and_filter(net, volt, curr, tt, fmeas, steps, None, verbose=c["verbose"])
    for a, b, nm in zip(res[:4], back[:4], ("noisy voltages", "noisy currents", "voltages", "currents")):
        exact(b, a, nm + " read back")
    require(int(back[5]) == block, "block length %r when read back, expected %d" % (back[5], block))
    same = c["sf"] == [4.0] * 3 if three else c["sf"][0] == 4.0
    if same:
        exact(back[4], rate, "ratings read back")
    nz = set(np.round(want[want > 0], 12))
    return {"labels": ["three" if three else "single", "eq" if c["eq"] else "exact", "block=%d" % block],
            "nontrivial": block >= 2 and len(nz) >= 2 and c["im"] > 0 and c["vm"] > 0}
