"""C32: plot_results reports what identify_network stored. Result files are generated, the command is run, every table and
figure is compared with an independent computation."""
from pbt.common import *
from props import c31

RULE = ("A case is a history of 1..3 runs of plot_results on generated result files (1..2 networks, single phase, one of three "
        "phases or sequences, all phases or all sequences, with and without -q, Laplacian or not, 1..4 iterations, with or without "
        "uncertainty results, with or without standard/Bayesian results), scales drawn. Error tables and stored plot data are "
        "compared with an independent computation. Non-trivial: Bayesian results on at least 2 nodes.")
EXAMPLES = {"quick": 220, "thorough": 2600}
ASSUMPTIONS = ["figures are recorded when they are saved, not rendered",
               "webcolors compatibility shim so that the installed tikzplotlib works",
               "the scaled sparsity tables are decided through their Frobenius and maximum errors only"]
setup = c31.setup
NAMES = ("netA", "netB")


def strategy(st):
    @st.composite
    def result(draw):
        ph = draw(st.sampled_from(["1", "1", "2", "3", "0", "123", "012"]))
        joint = ph in ("123", "012")
        n = draw(st.integers(1, 3)) if joint else draw(st.integers(2, 6))
        seqdata = ph in ("012", "0") or (ph in "12" and draw(st.booleans()))
        multi = not joint and (ph in "023" or draw(st.integers(0, 2)) == 0)
        return {"name": draw(st.sampled_from(NAMES)), "ph": ph, "n": n, "lap": draw(st.booleans()), "seqdata": seqdata, "multi": multi,
                "present": [draw(st.booleans()) for _ in range(4 * n)],
                "lines": [draw(st.integers(0, 2)) > 0 for _ in range(n * n)], "tie": draw(st.integers(0, 8)),
                "y": draw(blob(st, 40)), "fl": draw(flavour(st)), "e": draw(blob(st, 60)),
                "rel": draw(st.sampled_from([0.0, 0.01, 0.3, 2.0])), "v": draw(blob(st, 60)), "T": draw(st.integers(2, 12)),
                "its": draw(st.integers(1, 4)), "int": draw(st.booleans()),
                "std": draw(st.integers(0, 7)) > 0, "bay": draw(st.integers(0, 7)) > 0, "unc": not joint and n <= 4 and draw(st.integers(0, 2)) == 0,
                "q": draw(st.booleans()), "m": draw(st.sampled_from([0, 0, 3])), "err": draw(st.sampled_from([0, 0, 2])),
                "c": draw(st.sampled_from([None, 1.0, 0.25])), "verbose": draw(st.integers(0, 3)) == 0}
    return st.lists(result(), min_size=1, max_size=2)


def seq(k):
    import numpy as np
    a = np.exp(2j * np.pi / 3)
    t = np.array([[1, 1, 1], [1, a * a, a], [1, a, a * a]])      # phases from sequences
    return np.kron(np.eye(k), t), np.kron(np.eye(k), t.conj() / 3)


def table(text):
    import re
    out = {}
    for k in ("fro_error", "max_error", "rrms_error", "map_error"):
        m = re.search(k + r"=([-+.\w]+)", text)
        require(m is not None, "no %s in %r" % (k, text[:100]))
        out[k] = float(m.group(1))
    return out


def metrics(y, h):
    import numpy as np
    d = y - h
    nz = np.abs(y) > 0
    p = lambda a: float(np.sqrt(np.sum(np.abs(a) ** 2)))
    return {"fro_error": p(d), "max_error": float(np.max(np.abs(d))), "rrms_error": 100 * p(d) / p(y),
            "map_error": 100 * p(d[nz]) / p(y[nz])}


def same_table(got, want, what, keys=None, scale=1.0):
    import numpy as np
    for k in keys or want:
        tol = 1e-9 * abs(want[k]) + (1e-9 * (scale if k[0] in "fm" and k != "map_error" else 100))
        require(np.isfinite(got[k]) and abs(got[k] - want[k]) <= tol, "%s: %s is %r, expected %r" % (what, k, got[k], want[k]))


def matrix(d, joint):
    """true admittance and the phase numbers of the columns of the simulation file"""
    import numpy as np
    n = d["n"]
    N = 3 * n if joint else n
    z = np.resize(reals(d["y"], "normal"), 2 * N * N)
    z = z[:N * N] + 1j * z[N * N:2 * N * N]
    z = z.reshape((N, N)) + 2 * np.sign(z.real.reshape((N, N)) + 0.1)
    y = np.zeros((N, N), dtype=complex)
    lines = np.array(d["lines"]).reshape((n, n))
    lines = lines | lines.T
    if n > 1:
        k = d["tie"] % (n - 1)
        lines[k, k + 1] = lines[k + 1, k] = True
    w = 3 if joint else 1
    for a in range(n):
        for b in range(a):
            if lines[a, b]:
                blk = z[w * a:w * a + w, w * b:w * b + w]
                if joint:
                    blk = (blk + blk.T) / 2
                y[w * a:w * a + w, w * b:w * b + w] = -blk
                y[w * b:w * b + w, w * a:w * a + w] = -blk.T
    for a in range(n):
        s = -sum(y[w * a:w * a + w, w * b:w * b + w] for b in range(n) if b != a)
        if not d["lap"] or n == 1:
            blk = z[w * a:w * a + w, w * a:w * a + w]
            s = s + (blk + blk.T) / 2
        y[w * a:w * a + w, w * a:w * a + w] = s
    if not d["int"]:
        y = y * 37.5
    return y


def write(d, ctx):
    """the files identify_network leaves; returns the contents the figures should show"""
    import os
    import numpy as np
    from src.models.abstract_models import IterationStatus
    out = str(ctx.conf.DATA_DIR / "simulations_output")
    ph, n, nm = d["ph"], d["n"], d["name"]
    joint = ph in ("123", "012")
    y = matrix(d, joint)
    N = len(y)
    if joint:
        h = np.array([int(k) for k in ph] * n)
        sel = np.arange(N)
    elif not d["multi"]:
        h = np.ones(N, dtype=int)
        sel = np.arange(N)
    else:
        phs = [0, 1, 2] if d["seqdata"] else [1, 2, 3]
        if int(ph) not in phs:
            phs = [0, 1, 2] if ph == "0" else [1, 2, 3]
        pr = d["present"]
        h = np.array([p for k in range(n) for j, p in enumerate(phs) if p == int(ph) or pr[4 * k + j]])
        sel = np.flatnonzero(h == int(ph))
    T, M = d["T"], len(h)
    r = np.resize(reals(d["v"], "normal"), 2 * T * M)
    w = 1 + 0.1 * (r[:T * M] + 1j * r[T * M:]).reshape((T, M))
    full = np.zeros((M, M), dtype=complex)
    full[np.ix_(sel, sel)] = y
    np.savez(os.path.join(out, nm + ".npz"), i=w, v=w, j=w, w=w, y=full, p=np.ones(M), f=np.array(1), h=h)
    np.savez(os.path.join(out, "reference_results_" + nm + ".npz"), y=y, p=ph, l=d["lap"])
    g = np.concatenate([np.roll(np.resize(reals(d["e"], d["fl"]), 2 * N * N), 11 * k) * (1 + 0.1 * k) for k in range(4)])
    g = [(g[2 * k * N * N:(2 * k + 1) * N * N] + 1j * g[(2 * k + 1) * N * N:(2 * k + 2) * N * N]).reshape((N, N)) for k in range(4)]
    est = [y + d["rel"] * a for a in g]
    f = {k: os.path.join(out, k + "_results_" + nm + ".npz") for k in ("standard", "bayesian", "uncertainty")}
    for p in f.values():
        if os.path.exists(p):
            os.unlink(p)
    std, bay = d["std"], d["bay"] and d["std"]
    if std:
        np.savez(f["standard"], o=est[0], t=est[1], l=est[2])
    its = []
    if bay:
        for k in range(d["its"]):
            its.append(IterationStatus(k, y + d["rel"] * g[3] * (d["its"] - k + (0.5 if joint else 0)), 10.0 / (k + 1) + abs(d["rel"])))
        np.savez(f["bayesian"], y=est[3], i=its)
    if d["unc"] and std:
        k = 2 * N * N
        q = np.resize(reals(d["e"], "normal"), k * k).reshape((k, k))
        e = q @ q.T
        e = e + np.diag(0.1 + np.arange(1, k + 1) / k) * (1 + np.trace(e) / k)
        np.savez(f["uncertainty"], e=e, b=e * 1.5)
        trace = float(np.trace(e))
    else:
        trace = 0.0
    return {"trace": trace, "y": y, "w": w[:, sel], "est": est, "its": its, "std": std, "bay": bay, "unc": d["unc"] and std, "h": h, "sel": sel}


def check(cases, ctx):
    import glob
    import os
    import numpy as np
    import matplotlib.pyplot as plt
    import plot_results
    if not str(plot_results.conf.conf.DATA_DIR).startswith(str(ctx.tmp)):
        raise HarnessError("plots would be saved in %s" % plot_results.conf.conf.DATA_DIR)
    labels, nontrivial = [], False
    root = str(ctx.conf.DATA_DIR)

    def clean(everything=False):
        for p in ("*.png", "*.pdf", "*.txt", "tikz/*.tex", "simulations_output/plot_data/*.npz") + \
                (("simulations_output/*.npz",) if everything else ()):
            for f in glob.glob(os.path.join(root, p)):
                os.unlink(f)
    try:
        clean(True)
        for step, d in enumerate(cases):
            clean()
            run(d, ctx, root, "run %d (phases %s%s%s)" % (step + 1, d["ph"], " -q" if d["q"] else "", ", Laplacian" if d["lap"] else ""), labels)
            nontrivial = nontrivial or (d["std"] and d["bay"] and d["n"] >= 2)
            plt.close("all")
    finally:
        plt.close("all")
        clean(True)
    return {"labels": labels, "nontrivial": nontrivial}


def run(d, ctx, root, what, labels):
    import os
    import numpy as np
    import plot_results
    ref = write(d, ctx)
    labels.append(d["ph"] + ("q" if d["q"] else "") + ("/" + "".join(map(str, sorted(set(ref["h"])))) if len(d["ph"]) == 1 else ""))
    ph, lap = d["ph"], d["lap"]
    args = ["-n", d["name"], "-m", str(d["m"]), "-e", str(d["err"])] + (["-c", str(d["c"])] if d["c"] else []) + \
        (["-q"] if d["q"] else []) + (["-v"] if d["verbose"] else [])
    del ctx.saved[:]
    ctx.render = False
    opt = np.get_printoptions()
    try:
        plot_results.plot_results.main(args=args, standalone_mode=False)
    finally:
        np.set_printoptions(**opt)
    k = len(ref["y"]) // 3
    conv = lambda a: a
    volt = ref["w"]
    if ph == "012" and not d["q"]:
        P, S = seq(k)
        conv = lambda a: P @ a @ S
        volt = volt @ P
    elif ph == "123" and d["q"]:
        P, S = seq(k)
        conv = lambda a: S @ a @ P
        volt = volt @ S
    y = conv(ref["y"])
    o, t, l, b = [conv(a) for a in ref["est"]]
    n = len(y)
    big = float(max(np.max(np.abs(a)) for a in (y, o, t, l, b)))

    def stored(name):
        f = os.path.join(root, "simulations_output", "plot_data", name + ".npz")
        require(os.path.isfile(f), "%s: nothing plotted as %s" % (what, name))
        return np.load(f)["m"]

    def heat(name, want, top):
        got = stored(name)
        require(got.shape == want.shape, "%s: %s has shape %s, expected %s" % (what, name, got.shape, want.shape))
        close(np.abs(got), want, "%s: %s" % (what, name), rtol=1e-9, atol=1e-9 * big)
        shot = [s for f, s in ctx.saved if os.path.basename(f) == name + ".png"]
        require(len(shot) == 1, "%s: %s saved %d times" % (what, name, len(shot)))
        nt, lo, hi, g, _ = shot[0][0]["norm"][0]
        require(abs(g - (d["c"] or 0.5)) < 1e-12, "%s: %s drawn with exponent %r" % (what, name, g))
        if top and want.min() < top:
            require(hi == top, "%s: %s drawn up to %r, expected %r" % (what, name, hi, top))
        require(lo == 0 or want.max() == 0, "%s: %s drawn from %r" % (what, name, lo))

    def read(name):
        with open(os.path.join(root, name)) as f:
            return f.read()

    heat("y_bus", np.abs(y), d["m"])
    c = stored("correlations")
    require(c.shape == (n, 1), "%s: %s singular values of the voltages for %d nodes" % (what, c.shape, n))
    v = volt - volt.mean(axis=0)
    ev = np.sort(np.abs(np.linalg.eigvals(v.T @ v)))
    close(np.sort(10 ** (2 * c[:, 0])), ev, what + ": correlations of the voltages", rtol=1e-5, atol=1e-6 * max(ev.max(), 1e-12))
    tables = ["ols_error_metrics.txt", "tls_error_metrics.txt", "lasso_error_metrics.txt"]
    for f, nm, e in zip(tables, ("y_ols", "y_tls", "y_lasso"), (o, t, l)):
        require(os.path.exists(os.path.join(root, f)) == ref["std"], "%s: %s" % (what, f))
        if ref["std"]:
            same_table(table(read(f)), metrics(y, e), "%s: %s" % (what, f), scale=big, keys=TRUSTED(conv(1j * np.eye(n)), d))
            heat(nm, np.abs(e), d["m"])
    f = "sparse_tls_error_metrics.txt"
    require(os.path.exists(os.path.join(root, f)) == ref["bay"], "%s: %s" % (what, f))
    if ref["bay"]:
        same_table(table(read(f)), metrics(y, b), "%s: %s" % (what, f), scale=big, keys=TRUSTED(conv(1j * np.eye(n)), d))
        heat("y_sparse_tls_cov", np.abs(b), d["m"])
        heat("y_sparse_tls_cov_errors", np.abs(b - y), d["err"])
        want = np.array([[metrics(y, conv(i.fitted_parameters))["rrms_error"]] for i in ref["its"]])
        close(stored("errors"), want, what + ": error of the iterates", rtol=1e-9, atol=1e-9)
        close(stored("targets"), np.array([[i.target_function] for i in ref["its"][1:]]).reshape((-1, 1)), what + ": targets", rtol=1e-12)
        o, t, l, b = [(m + m.T) / 2 for m in (o, t, l, b)]       # one value per pair of nodes
        pairs = [(a, c) for c in range(n) for a in range(c + (1 if lap else 0), n)]
        ze = 1e-9 * float(np.max(np.abs(y)))
        exact_zero = not (ph == "012" and not d["q"]) and not (ph == "123" and d["q"])
        line = [a != c and abs(y[a, c]) > 0 for a, c in pairs]
        if exact_zero:
            cmp = np.array([[m[p] for m in (o, t, l, b, y)] for p, q in zip(pairs, line) if q]).reshape((-1, 5))
            close(stored("comparison"), np.abs(cmp), what + ": comparison of the lines", rtol=1e-9, atol=1e-9 * big)
            none = [p for p, q in zip(pairs, line) if not q]
            labels.append("missing lines" if none else "all lines")
            if none:
                parts = read("sparsity_metrics.txt").split("ErrorMetrics")
                require(len(parts) == 5, "%s: %d sparsity tables" % (what, len(parts) - 1))
                for nm, part, m in zip(("OLS", "TLS", "Lasso", "MLE"), parts[1:], (o, t, l, b)):
                    a = 2 * np.array([m[p] for p in none])
                    z = 2 * np.array([y[p] for p in none])
                    want = {"fro_error": float(np.sqrt(np.sum(np.abs(a - z) ** 2))), "max_error": float(np.max(np.abs(a - z)))}
                    got = {}
                    import re
                    for q in want:
                        got[q] = float(re.search(q + r"=([-+.\w]+)", part).group(1))
                    same_table(got, want, "%s: sparsity of %s" % (what, nm), scale=big)
    if ref["unc"]:
        labels.append("uncertainty")
        heat("tls_errors", np.abs(ref["est"][1] - y), d["err"])
        for nm, tr in (("tls_cov", ref["trace"]), ("tls_cov_est", 1.5 * ref["trace"])):
            got = stored(nm)
            require(got.shape == (n, n), "%s: %s of shape %s" % (what, nm, got.shape))
            # principal axes scaled by the standard deviations: whatever their signs, their squares add up to the total variance
            close(np.array(np.sum(np.abs(got) ** 2) * n ** 2), np.array(tr), "%s: total variance in %s" % (what, nm), rtol=1e-5)


def TRUSTED(_, d):
    """after a change of coordinates the zeros of the matrix are only zero up to rounding"""
    keys = ["fro_error", "max_error", "rrms_error", "map_error"]
    if (d["ph"] == "012" and not d["q"]) or (d["ph"] == "123" and d["q"]):
        keys.remove("map_error")
    return keys
