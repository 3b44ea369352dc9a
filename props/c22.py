"""C22: filtering and resampling."""
from pbt.common import *

RULE = ("A case is 1..5 complex series on an increasing time grid (regular or not), a new grid inside it of any length "
        "(incomplete last block possible), a block length, optionally the noise function with scalar or per-series "
        "deviations, or a recording stand-in for it. Reference: interpolation by hand, block by block. Non-trivial: block "
        "length at least 2, at least 2 rows and 2 series, new times off the old grid.")
EXAMPLES = {"quick": 1500, "thorough": 25000}


def strategy(st):
    @st.composite
    def case(draw):
        t, n = draw(size(st, 2, 12, 40)), draw(size(st, 1, 5, 12))
        m = draw(size(st, 1, 40, 150))
        return {"t": t, "n": n, "m": m, "f": draw(size(st, 1, 8, 30)), "x": draw(blob(st, 4 * t * n)), "fl": draw(flavour(st)),
                "dt": draw(st.lists(st.sampled_from([1.0, 60.0, 0.5, 7.0]), min_size=t, max_size=t)), "reg": draw(st.booleans()),
                "new": draw(st.sampled_from(["lin", "lin", "random", "same"])), "u": draw(blob(st, m)),
                "noise": draw(st.sampled_from(["none", "none", "record", "polar", "partial"])),
                "sd": draw(st.lists(st.sampled_from([0.0, 0.01, 0.1, 0.5]), min_size=2 * n, max_size=2 * n)),
                "sc": draw(st.sampled_from(["array", "list", "scalar"])), "scp": draw(st.sampled_from([None, None, "array", "scalar"])), "verbose": draw(st.booleans()),
                "lay": draw(layouts(st)), "t0": draw(st.sampled_from([0.0, 100.0])), "real": draw(st.booleans())}
    return case()


def interp(t, x, u):
    import numpy as np
    out = np.zeros((len(u), x.shape[1]), dtype=complex)
    for k, s in enumerate(u):
        j = 0
        while j < len(t) - 2 and s > t[j + 1]:
            j += 1
        w = (s - t[j]) / (t[j + 1] - t[j])
        out[k] = (1 - w) * x[j] + w * x[j + 1]
    return out


def check(c, ctx):
    import numpy as np
    from src.simulation.noise import add_polar_noise_to_measurement, filter_and_resample_measurement as F
    t, n, f = c["t"], c["n"], c["f"]
    old = c["t0"] + np.cumsum([60.0] * t if c["reg"] else c["dt"])
    x = cplx(c["x"], c["fl"])[:t * n].reshape(t, n)
    w = cplx(c["x"], c["fl"])[t * n:].reshape(t, n)
    if c["real"]:
        x = x.real + 0j
    if c["new"] == "lin":
        new = np.linspace(old[0], old[-1], c["m"])
    elif c["new"] == "random":
        new = np.sort(old[0] + (old[-1] - old[0]) * (reals(c["u"]) + 8) / 16)
    else:
        new = old.copy()
    rows = len(new) // f
    sdm, sdp = np.array(c["sd"][:n]), np.array(c["sd"][n:])
    res = interp(old, x, new)
    want = np.zeros((rows, n), dtype=complex)
    for k in range(rows):
        want[k] = res[k * f:(k + 1) * f].sum(0) / f
    x, w = layout(x, c.get("lay", 0)), layout(w, c.get("lay", 0))
    old, new = layout(old, c.get("lay", 0)), layout(new, c.get("lay", 0))
    x0, old0, new0 = x.copy(), old.copy(), new.copy()
    kw = {}
    calls = []
    form = {"array": lambda v: v, "list": list, "scalar": lambda v: float(v[0])}
    scm, scp = c["sc"], c.get("scp") or c["sc"]             # both deviations may be common or per series
    arg, argp = form[scm], form[scp]
    if c["noise"] == "record":
        def fcn(s, m, p):
            k = len(calls)
            calls.append((np.array(s), float(m), float(p)))
            return np.array(s) * (k + 2) + 1j * np.arange(len(s))
        kw = dict(noise_fcn=fcn, std_m=arg(sdm), std_p=argp(sdp))
    elif c["noise"] == "polar":
        sdm, sdp = np.maximum(sdm, 0), np.minimum(sdp, 0.1)
        kw = dict(noise_fcn=add_polar_noise_to_measurement, std_m=arg(sdm), std_p=argp(sdp))
    elif c["noise"] == "partial":
        kw = [dict(noise_fcn=add_polar_noise_to_measurement), dict(std_m=arg(sdm), std_p=argp(sdp)),
              dict(noise_fcn=add_polar_noise_to_measurement, std_m=arg(sdm))][t % 3]
    np.random.seed(3)
    got = F(x, oldtimes=old, newtimes=new, fparam=f, verbose=c["verbose"], **kw)
    exact(x, x0, "series unchanged")
    exact(old, old0, "old times unchanged")
    exact(new, new0, "new times unchanged")
    require(got.shape == (rows, n), "shape %r, expected %r" % (got.shape, (rows, n)))
    s = float(np.max(np.abs(x))) + 1e-300
    if c["noise"] in ("none", "partial"):
        close(got, want, "block means of the interpolation", rtol=1e-11, scale=s)
        if rows:
            lin = F(2 * x - 3j * w, oldtimes=old, newtimes=new, fparam=f)
            close(lin, 2 * got - 3j * F(w, oldtimes=old, newtimes=new, fparam=f), "linear in the data", rtol=1e-11,
                  scale=2 * s + 3 * float(np.max(np.abs(w))))
            aff = np.outer(old, x[0]) + x[1]
            means = np.array([new[k * f:(k + 1) * f].mean() for k in range(rows)])
            close(F(aff, oldtimes=old, newtimes=new, fparam=f), np.outer(means, x[0]) + x[1], "affine signals", rtol=1e-10,
                  scale=float(np.max(np.abs(aff))) + 1e-300)
            one = F(x[:, :1], oldtimes=old, newtimes=new, fparam=f)
            close(one[:, 0], got[:, 0], "a series filtered alone", rtol=1e-13, scale=s)
    elif c["noise"] == "record":
        require(len(calls) == n, "noise requested %d times for %d series" % (len(calls), n))
        for k, (a, m, p) in enumerate(calls):
            em, ep = sdm[0 if scm == "scalar" else k], sdp[0 if scp == "scalar" else k]
            require(m == em and p == ep, "series %d perturbed with deviations %r, expected %r" % (k, (m, p), (em, ep)))
            close(a.squeeze(), res[:, k] if a.ndim == 1 and len(res) > 1 else res[:, k].squeeze(), "series %d is perturbed at the resampled rate" % k, rtol=1e-11, scale=s)
            tot = res[:, k] * (k + 2) + 1j * np.arange(len(new))
            e = np.array([tot[q * f:(q + 1) * f].mean() for q in range(rows)])
            close(got[:, k], e, "series %d averaged after perturbation" % k, rtol=1e-11, scale=s * (k + 2) + len(new))
    else:
        # the same noise, drawn series by series at the resampled rate
        np.random.seed(3)
        for k in range(n):
            em, ep = sdm[0 if scm == "scalar" else k], sdp[0 if scp == "scalar" else k]
            if em == 0 and ep == 0:
                close(got[:, k], want[:, k], "series %d without noise" % k, rtol=1e-10, scale=s)
            else:
                d = np.abs(got[:, k] - want[:, k])
                lim = 8 * (em + np.pi * ep) * s
                require(float(np.max(d, initial=0)) <= lim + 1e-9 * s, "series %d perturbed by %.3g, deviations %r" % (k, float(np.max(d, initial=0)), (em, ep)))
    off = c["new"] != "same"
    return {"labels": [c["noise"], c["new"], "rows=%d" % min(rows, 5), "f=%d" % f], "nontrivial": f >= 2 and rows >= 2 and n >= 2 and off and bool(np.any(x))}
