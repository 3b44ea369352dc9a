"""C19: load profiles from households and Gaussian loads."""
from pbt.common import *

RULE = ("A case is either a household table (2..6 households, integer watts, zero and negative entries), a list of windows "
        "(any order, overlapping, equal or different lengths), nominal loads for one or three phases, read as npy and "
        "as csv; or a Gaussian load request (1..6 loads per phase). Every household column is decoded "
        "into household counts. Non-trivial: at least 2 windows or 3 phases with counts of at least 3, or a Gaussian "
        "request with at least 2 loads.")
EXAMPLES = {"quick": 2000, "thorough": 30000}


def strategy(st):
    K = st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 2, 3, 200]))
    F = st.sampled_from([0.0, 0.0, 0.25, -0.25, 0.45, -0.45, 0.1])

    @st.composite
    def case(draw):
        if draw(st.integers(0, 4)) == 0:
            n = draw(st.integers(1, 6))
            R = st.lists(st.sampled_from([0.0, 0.1, 1.0, 40.0, 0.003]), min_size=n, max_size=n)
            return {"mode": "gauss", "n": n, "sd": draw(st.sampled_from([0.0, 0.02, 0.1, 1.0])), "seed": draw(st.integers(0, 10 ** 6)),
                    "refs": [draw(R) for _ in range(6)], "three": draw(st.booleans())}
        h = draw(st.integers(2, 6))
        hq = draw(st.sampled_from([0, 0, 0, 1, 2]))         # some households have no reactive power meter
        rows = draw(st.integers(8, 40))
        w = draw(st.integers(1, 3))
        per = draw(st.booleans())
        length = draw(st.lists(st.integers(3, max(3, rows // 2)), min_size=w, max_size=w))
        if not per:
            length = [length[0]] * w
        head = [draw(st.integers(0, rows - l)) for l in length]
        n = draw(st.integers(1, 5))
        three = draw(st.booleans())
        same = draw(st.integers(0, 3)) == 0
        if same:
            n = 6
        k0 = draw(st.integers(30, 60))
        ks = [[k0 if same else draw(K) for _ in range(n)] for _ in range(6 if three else 2)]
        fs = [[0.0 if same else draw(F) for _ in range(n)] for _ in range(6 if three else 2)]
        return {"mode": "house", "h": h, "hq": hq, "rows": rows, "p": draw(blob(st, rows * h)), "q": draw(blob(st, rows * h)), "head": head,
                "length": length, "scalar": (not per) and draw(st.booleans()), "k": ks, "f": fs, "three": three, "same": same,
                "seed": draw(st.integers(0, 10 ** 6)), "csv": draw(st.sampled_from([True, True, False])),
                "verbose": draw(st.booleans())}
    return case()


def gauss(c):
    import numpy as np
    from src.simulation.load_profile import generate_gaussian_load
    n, sd = c["n"], c["sd"]
    refs = [np.array(r) for r in c["refs"]]
    N = 3000
    args = refs if c["three"] else refs[:2]
    np.random.seed(c["seed"])
    out = generate_gaussian_load(sd, N, *args)
    np.random.seed(c["seed"])
    again = generate_gaussian_load(sd, N, *[r.copy() for r in args])
    require(len(out) == len(args), "%d tables, expected %d" % (len(out), len(args)))
    # documented order of the three-phase result: pa, qa, pb, qb, pc, qc
    cols = []
    for m, (o, a, r) in enumerate(zip(out, again, args)):
        exact(o, a, "same random state, same loads")
        require(o.shape == (N, n), "shape %r" % (o.shape,))
        for k in range(n):
            x = o[:, k]
            s = sd * r[k]
            if s == 0:
                close(x, np.full(N, r[k]), "load %d without deviation" % k, rtol=1e-12, scale=max(r[k], 1e-12))
                continue
            e = (x - r[k]) / s
            require(abs(e.mean()) < 6 / N ** 0.5, "table %d load %d: mean %.4g, nominal %.4g" % (m, k, x.mean(), r[k]))
            require(abs(e.std() - 1) < 6 / (2 * N) ** 0.5, "table %d load %d: deviation %.4g, expected %.4g" % (m, k, x.std(), s))
            require(abs((e ** 4).mean() - 3) < 6 * (96.0 / N) ** 0.5, "table %d load %d: not Gaussian (fourth moment %.3g)" % (m, k, (e ** 4).mean()))
            require(abs((e[1:] * e[:-1]).mean()) < 6 / N ** 0.5, "table %d load %d: successive samples coupled" % (m, k))
            cols.append((m, k, e))
    for i in range(len(cols)):
        for j in range(i):
            r_ = float((cols[i][2] * cols[j][2]).mean())
            require(abs(r_) < 6.5 / N ** 0.5, "loads %r and %r coupled (%.3f)" % (cols[i][:2], cols[j][:2], r_))
    return {"labels": ["gauss", "three" if c["three"] else "single"], "nontrivial": n >= 2 and len(cols) >= 2}


def check(c, ctx):
    import numpy as np
    from pathlib import Path
    from src.simulation.load_profile import load_profile_from_csv, load_profile_from_numpy
    if c["mode"] == "gauss":
        return gauss(c)
    h, rows = c["h"], c["rows"]
    P = np.round(reals(c["p"]).reshape(rows, h) * 512 + 700)
    Q = np.round(reals(c["q"]).reshape(rows, h) * 256 + 150)
    Q = np.ascontiguousarray(Q[:, :max(2, h - c.get("hq", 0))])
    head, length = c["head"], c["length"]
    Pw = np.vstack([P[a:a + l] for a, l in zip(head, length)])
    Qw = np.vstack([Q[a:a + l] for a, l in zip(head, length)])
    mp, mq = float(np.mean(np.percentile(np.abs(Pw), 90, axis=0))) / 1e6, float(np.mean(np.percentile(np.abs(Qw), 90, axis=0))) / 1e6
    if mp < 1e-5 or mq < 1e-6:
        raise Discard("households without consumption")
    three = c["three"]
    # order of the arguments: p, q, p_b, q_b, p_c, q_c
    refs = [np.array([max(0.0, k + f) * (mp if m % 2 == 0 else mq) for k, f in zip(c["k"][m], c["f"][m])]) for m in range(len(c["k"]))]
    d = Path(ctx.tmp) / "prof"
    d.mkdir(exist_ok=True)
    fa, fr = d / "p.npy", d / "q.npy"
    np.save(str(fa), P)
    np.save(str(fr), Q)
    hd = np.array(head)
    ln = np.array(length[0], dtype=np.int64) if c["scalar"] else np.array(length)
    kw = {}
    if three:
        kw = dict(load_p_rb=refs[2], load_q_rb=refs[3], load_p_rc=refs[4], load_q_rc=refs[5])
    np.random.seed(c["seed"])
    out = load_profile_from_numpy(str(fa), str(fr), hd.copy(), ln, refs[0], refs[1], verbose=c["verbose"], **kw)
    np.random.seed(c["seed"])
    again = load_profile_from_numpy(str(fa), str(fr), hd.copy(), ln, refs[0], refs[1], verbose=False, **kw)
    require(len(out) == (6 if three else 2), "%d tables" % len(out))
    for a, b in zip(out, again):
        exact(a, b, "same random state, same profiles")

    def decode(out, src):
        order = [0, 2, 4, 1, 3, 5] if three else [0, 1]          # tables: p_a, p_b, p_c, q_a, q_b, q_c
        n = len(c["k"][0])
        most, totals = 0, []
        for t, m in enumerate(order):
            W, mean = (Pw, mp) if m % 2 == 0 else (Qw, mq)
            o = np.asarray(out[t])
            name = "%s table %d" % (src, t)
            require(o.shape == (len(W), n), "%s has shape %r, expected %r" % (name, o.shape, (len(W), n)))
            h = W.shape[1]
            full = np.linalg.matrix_rank(W) == h and np.linalg.cond(W) < 1e6
            counts = np.linalg.lstsq(W / 1e6, o, rcond=None)[0]
            sc = float(np.max(np.abs(W))) / 1e6
            decoded = []
            for k in range(n):
                q = refs[m][k] / mean
                want = int(np.floor(q + 0.5))
                if abs(q - np.floor(q) - 0.5) < 1e-6:
                    continue
                cn = counts[:, k]
                if full:
                    r = np.round(cn)
                    require(float(np.max(np.abs(cn - r))) < 1e-4 * (1 + want), "%s load %d is not a sum of whole households (%r)" % (name, k, list(cn)))
                    require(r.min() >= 0, "%s load %d uses households a negative number of times: %r" % (name, k, list(r)))
                    require(int(r.sum()) == want, "%s load %d is the sum of %d households, expected %d (%.3f)" % (name, k, int(r.sum()), want, q))
                    decoded.append(r)
                    most = max(most, want)
                else:
                    r = cn
                close(W / 1e6 @ r, o[:, k], "%s load %d rebuilt from its households" % (name, k), rtol=1e-6, scale=sc * (1 + want))
            if c["same"] and full and len(decoded) == 6 and h >= 4:
                require(any(not np.array_equal(decoded[0], x) for x in decoded[1:]), name + ": all loads use the same households")
                tot = sum(decoded)
                N, p = tot.sum(), 1.0 / h
                require(float(np.max(np.abs(tot - N * p))) < 8 * (N * p * (1 - p)) ** 0.5, name + ": households not drawn uniformly: %r" % list(tot))
                totals.append(np.concatenate(decoded))
        for i in range(len(totals)):
            for j in range(i):
                require(not np.array_equal(totals[i], totals[j]), "%s tables %d and %d use the same households for every load" % (src, j, i))
        return most

    most = decode(out, "npy")
    if c["csv"]:
        ca, cr = d / "p.csv", d / "q.csv"
        for f, M in ((ca, P), (cr, Q)):
            with open(str(f), "w") as fh:
                for row in M:
                    fh.write(";".join("%d" % v for v in row) + "\n")
        foot = rows - (np.array(length) + np.array(head))
        np.random.seed(c["seed"])
        csv = load_profile_from_csv(str(ca), str(cr), hd.copy(), foot, refs[0], refs[1], verbose=c["verbose"], **kw)
        require(len(csv) == len(out), "csv reader returns %d tables" % len(csv))
        np.random.seed(c["seed"])
        for a, b in zip(csv, load_profile_from_csv(str(ca), str(cr), hd.copy(), foot, refs[0], refs[1], verbose=False, **kw)):
            exact(a, b, "same random state, same profiles from csv")
        decode(csv, "csv")
    return {"labels": ["three" if three else "single", "windows=%d" % len(head), "csv" if c["csv"] else "npy"],
            "nontrivial": (len(head) >= 2 or three) and most >= 3}
