"""C21: measurement noise."""
from pbt.common import *

RULE = ("A case is a measurement (1500 samples of 1..5 columns, or one dimension; columns of different magnitude and phase "
        "around the whole circle, zero entries), scalar or per-column deviations over four decades including zero, and a "
        "random state. The noise is recovered sample by sample and its moments, independence and dependence on the column "
        "are tested at 6.5 sigma. One case in five is short (1..6 samples, often as many as columns; purely real, negative or imaginary) "
        "and is tested for which entries get noise and for its order of magnitude. Non-trivial: at least 2 columns with different deviations or both wrappers.")
EXAMPLES = {"quick": 1200, "thorough": 20000}
SD = [0.0, 1e-4, 1e-3, 1e-2, 0.05]


def strategy(st):
    @st.composite
    def case(draw):
        if draw(st.integers(0, 4)) == 0:
            n = draw(st.integers(1, 6))
            sd = lambda: draw(st.lists(st.sampled_from([0.0, 0.0, 1e-4, 1e-2]), min_size=n, max_size=n))
            return {"mode": "few", "n": n, "T": draw(st.one_of(st.just(n), st.just(n), st.integers(1, 6))), "x": draw(blob(st, 2 * 36)),
                    "part": draw(st.sampled_from(["both", "both", "real", "imag", "negative"])), "m": sd(), "p": sd(),
                    "ms": draw(st.sampled_from(["array", "array", "float"])), "ps": draw(st.sampled_from(["array", "array", "float"])),
                    "lay": draw(layouts(st)), "seed": draw(st.integers(0, 10 ** 6))}
        n = draw(size(st, 1, 5, 20))
        sd = lambda: draw(st.lists(st.sampled_from(SD), min_size=n, max_size=n))
        return {"n": n, "lev": draw(st.lists(st.sampled_from([1.0, 0.1, 25.0, 1e-4]), min_size=n, max_size=n)),
                "ph": draw(st.lists(st.sampled_from([0.01, -2.0, 1.5, 3.0, -0.2]), min_size=n, max_size=n)),
                "mode": draw(st.sampled_from(["polar", "polar", "polar", "cart", "wrap_polar", "wrap_cart"])),
                "m": sd(), "p": sd(), "ms": draw(st.sampled_from(["array", "array", "float", "npfloat"])),
                "ps": draw(st.sampled_from(["array", "array", "float", "npfloat"])),
                "lay": draw(layouts(st)), "one": draw(st.integers(0, 5)) == 0, "seed": draw(st.integers(0, 10 ** 6)), "zero": draw(st.booleans())}
    return case()


def gaussian(e, what, cols, T):
    lim = 6.5 / T ** 0.5
    require(abs(e.mean()) < lim, "%s: mean of the normalised noise is %.3f" % (what, e.mean()))
    require(abs((e * e).mean() - 1) < lim * 2 ** 0.5, "%s: deviation is %.3f times the requested one" % (what, (e * e).mean() ** 0.5))
    require(abs((e ** 4).mean() - 3) < 6.5 * (96.0 / T) ** 0.5 + 0.2, "%s: noise is not Gaussian" % what)
    require(abs((e[1:] * e[:-1]).mean()) < lim, "%s: successive samples are coupled" % what)
    for w, o in cols:
        require(abs((e * o).mean()) < lim * 1.05, "%s coupled with %s" % (what, w))
    cols.append((what, e))


def few(c):
    """measurements as short as they are wide: which entries get noise at all, and its order of magnitude"""
    import numpy as np
    from src.simulation import noise as NZ
    n, T = c["n"], c["T"]
    x = cplx(c["x"])[:T * n].reshape(T, n) + 0.5
    if c["part"] in ("real", "negative"):
        x = (np.abs(x.real) + 0.1) * (1 if c["part"] == "real" else -1) + 0j
    elif c["part"] == "imag":
        x = 1j * (np.abs(x.imag) + 0.1)
    x = layout(x, c.get("lay", 0))
    x0 = x.copy()
    m, p = [np.array(c[k]) if c[k + "s"] == "array" else float(c[k][0]) for k in "mp"]
    np.random.seed(c["seed"])
    got = NZ.add_polar_noise_to_measurement(x, m, p)
    exact(x, x0, "measurement unchanged")
    require(got.shape == (T, n), "shape %r" % (got.shape,))
    ms, ps = np.resize(np.asarray(m), n), np.resize(np.asarray(p), n)
    for k in range(n):
        s, g = x0[:, k], got[:, k]
        nz = s != 0
        exact(g[~nz], s[~nz], "zero entries stay zero")
        s, g = s[nz], g[nz]
        ang = np.angle(s)
        d, em = np.angle(g * np.exp(-1j * ang)), np.abs(g) / np.abs(s) - 1
        w = "column %d of %d by %d" % (k, T, n)
        require(bool(np.all(np.abs(em) <= 7 * ms[k] + 1e-12)), "%s: magnitude noise %.3g, requested deviation %g" % (w, np.max(np.abs(em), initial=0), ms[k]))
        require(bool(np.all(np.abs(d) <= 7 * ps[k] * np.maximum(1, np.abs(ang)) + 1e-11)), "%s: phase noise %.3g, requested deviation %g" % (w, np.max(np.abs(d), initial=0), ps[k]))
        if len(s):
            require(ms[k] == 0 or float(np.max(np.abs(em))) > 1e-7 * ms[k], w + ": no magnitude noise")
            far = float(np.max(np.abs(ang)))
            require(ps[k] == 0 or far < 1e-3 or float(np.max(np.abs(d))) > 1e-7 * ps[k] * far, w + ": no phase noise")
    acc = [30 * float(v) for v in (c["m"][0], c["p"][0])]
    out, rs, js = NZ.add_cartesian_noise_to_measurement(x, acc[0], acc[1])
    for k in range(n):
        for part, a, sd in ((np.real, acc[0], rs[k]), (np.imag, acc[1], js[k])):
            s = float(np.abs(part(x0[:, k])).mean()) * a / 3
            close(np.array(sd), np.array(s), "reported deviation", rtol=1e-12)
            e = np.abs(part(out[:, k]) - part(x0[:, k]))
            require(bool(np.all(e <= 7 * s + (1e-13 * float(np.max(np.abs(x0))) if s else 0))), "column %d: Cartesian noise %.3g, deviation %.3g" % (k, e.max(), s))
            require(s < 1e-12 or float(e.max()) > 1e-7 * s, "column %d: no Cartesian noise" % k)
    return {"labels": ["few", c["part"], "square" if T == n else "T=%d" % T], "nontrivial": n >= 2 and len(set(ms)) + len(set(ps)) > 2}


def check(c, ctx):
    import numpy as np
    from src.simulation import noise as NZ
    if c["mode"] == "few":
        return few(c)
    n, T = c["n"], 1500
    rng = np.random.RandomState(c["seed"] % 1000)
    x = np.array(c["lev"]) * (1 + 0.1 * rng.randn(T, n)) * np.exp(1j * (np.array(c["ph"]) + 0.02 * rng.rand(T, n)))
    if c["zero"]:
        x[5] = 0
    x = layout(x, c.get("lay", 0))
    pick = lambda v, k: float(v[0]) if k == "float" else np.float64(v[0]) if k == "npfloat" else np.array(v)
    x0 = x.copy()
    cols, known, labels = [], [], [c["mode"], "n=%d" % n]
    if c["mode"] in ("polar", "wrap_polar"):
        one = c["one"] and c["mode"] == "polar"
        if one:
            x, x0, n = x[:, 0].copy(), x0[:, 0], 1
            m, p = np.float64(c["m"][0]), np.float64(c["p"][0])
        else:
            m, p = pick(c["m"], c["ms"]), pick(c["p"], c["ps"])
        call = lambda: [NZ.add_polar_noise_to_measurement(x, m, p)]
        if c["mode"] == "wrap_polar":
            z = np.roll(x, 1, axis=1) * (2.0 * np.exp(0.3j))        # no phase becomes 0
            z0 = z.copy()
            call = lambda: NZ.add_noise_in_polar_coordinates(z, x, m, p)
        np.random.seed(c["seed"])
        out = call()
        np.random.seed(c["seed"])
        again = call()
        exact(x, x0, "measurement unchanged")
        pairs = [(x0, out[0], "")]
        if c["mode"] == "wrap_polar":
            exact(z, z0, "currents unchanged")
            pairs = [(x0, out[0], "voltage "), (z0, out[1], "current ")]
        for a, b in zip(out, again):
            exact(a, b, "same random state, same noise")
        for src, got, nm in pairs:
            require(got.shape == src.shape, "%sshape %r, expected %r" % (nm, got.shape, src.shape))
            src, got = src.reshape(T, n), got.reshape(T, n)
            ms, ps = np.resize(np.asarray(m), n), np.resize(np.asarray(p), n)
            for k in range(n):
                s, g = src[:, k], got[:, k]
                nz = s != 0
                exact(g[~nz], s[~nz], nm + "zero entries stay zero")
                s, g = s[nz], g[nz]
                ang = np.angle(s)
                d = np.angle(g * np.exp(-1j * ang))
                em, ep = np.abs(g) / np.abs(s) - 1, d / ang
                w = nm + "column %d" % k
                if ms[k] == 0:
                    close(em, 0 * em, w + ": magnitude without noise", rtol=0, atol=1e-12)
                if ps[k] == 0:
                    close(d, 0 * d, w + ": phase without noise", rtol=0, atol=1e-11)
                if ms[k] > 0:
                    e = np.zeros(T)
                    e[nz] = em / ms[k]
                    gaussian(e, w + " magnitude", cols, T)
                if ps[k] > 0:
                    e = np.zeros(T)
                    e[nz] = d / ps[k]
                    try:
                        gaussian(e, w + " phase", cols, T)
                    except Violation:       # listed finding: the noise is scaled with the phase
                        e[nz] = ep / ps[k]
                        gaussian(e, w + " phase relative to the phase", cols, T)
                        known.append("relative-phase")
        diff = len(set(np.resize(np.asarray(m), n))) > 1 or len(set(np.resize(np.asarray(p), n))) > 1
    else:
        acc = [0.0, 0.3, 0.03, 3e-4, 1.5][SD.index(c["m"][0])], [0.0, 0.3, 0.03, 3e-4, 1.5][SD.index(c["p"][0])]
        z = np.roll(x, 1, axis=1) * 2.0 + 0.1
        np.random.seed(c["seed"])
        if c["mode"] == "cart":
            call = lambda: NZ.add_cartesian_noise_to_measurement(x, acc[0], acc[1])
        else:
            call = lambda: NZ.add_noise_in_cartesian_coordinates(z, x, acc[0], acc[1])
        out = call()
        np.random.seed(c["seed"])
        again = call()
        for a, b in zip(out, again):
            exact(a, b, "same random state, same noise")
        exact(x, x0, "measurement unchanged")
        if c["mode"] == "cart":
            res = [(x0, out[0], acc[0], acc[1], "")]
            close(out[1], np.abs(x0.real).mean(0) * acc[0] / 3, "reported deviation of the real part", rtol=1e-12)
            close(out[2], np.abs(x0.imag).mean(0) * acc[1] / 3, "reported deviation of the imaginary part", rtol=1e-12)
        else:
            res = [(x0, out[0], acc[1], acc[1], "voltage "), (z, out[1], acc[0], acc[0], "current ")]
        for src, got, ar, ai, nm in res:
            require(got.shape == src.shape, "%sshape %r" % (nm, got.shape))
            for k in range(n):
                for part, a, pn in ((np.real, ar, "real"), (np.imag, ai, "imaginary")):
                    s = np.abs(part(src[:, k])).mean() * a / 3
                    e = part(got[:, k]) - part(src[:, k])
                    if s == 0:
                        exact(e, 0 * e, "%s%s part without noise" % (nm, pn))
                    elif s > 1e-13 * np.max(np.abs(src[:, k])):
                        gaussian(e / s, "%scolumn %d %s part" % (nm, k, pn), cols, T)
        diff = n > 1
    return {"labels": labels, "nontrivial": diff and len(cols) >= 2, "known": sorted(set(known))}
