"""C15: Kron reduction."""
from pbt.common import *
from props import _net as N

RULE = ("A case is an admittance matrix (random complex with a dominant or well conditioned reduced block, symmetric, "
        "Laplacian of a random graph with reduced islands or lines up to a million times stronger than others, numpy array or matrix, 1..12 nodes, or the matrix of a simulated network), an index "
        "set in any order (list, array or float array) and a split of it into up to three steps. Non-trivial: at least 2 "
        "reduced and 2 kept nodes.")
EXAMPLES = {"quick": 1200, "thorough": 20000}


def strategy(st):
    @st.composite
    def case(draw):
        n = draw(size(st, 1, 12, 40))
        idx = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n - 1, min_size=min(n - 1, draw(size(st, 0, 4, 12, 6)))))
        kind = draw(st.sampled_from(["general", "sym", "lap", "lap", "graph", "graph"]))
        c = {"n": n, "idx": idx, "kind": kind, "y": draw(blob(st, 2 * n * n)), "v": draw(blob(st, 4 * n)),
             "lay": draw(layouts(st)), "cls": draw(st.sampled_from(["array", "matrix"])), "ix": draw(st.sampled_from(["list", "array", "float", "tuple"])),
             "cut": draw(st.lists(st.integers(0, 12), min_size=2, max_size=2)),
             "order": draw(st.permutations(list(range(len(idx))))), "net": None,
             "island": draw(st.sampled_from([0, 0, 1, 2])), "strong": draw(st.sampled_from([0, 0, 0, 3, 5, 6]))}
        if n <= 5 and draw(st.integers(0, 9)) == 0:
            c["net"] = draw(N.strategy(st, 2, 5))
        return c
    return case()


def schur(y, idx):
    """nodes eliminated one by one"""
    import numpy as np
    y = np.array(y, dtype=complex)
    alive = list(range(len(y)))
    for k in sorted(idx, reverse=True):
        p = alive.index(k)
        o = [i for i in range(len(alive)) if i != p]
        y = y[np.ix_(o, o)] - np.outer(y[o, p], y[p, o]) / y[p, p]
        alive.pop(p)
    return y, alive


def check(c, ctx):
    import numpy as np
    from src.simulation.network import NetData
    dead, strong = [], False
    if c["net"]:
        d = c["net"]
        net = NetData(N.bus_data(d, scale=0.1), N.line_data(d))
        y = N.y_ref(d)
        n = len(y)
        idx = [i % n for i in c["idx"]]
        idx = sorted(set(idx), key=idx.index)[:n - 1]
        before = N.snapshot(net)
        got = np.asarray(net.kron_reduction(list(idx)))
        N.same_snapshot(before, N.snapshot(net), "kron_reduction", require)
    else:
        net, n, idx = NetData(), c["n"], list(c["idx"])
        y = cplx(c["y"]).reshape(n, n)
        if c["kind"] != "general":
            y = y + y.T
        if c["kind"] == "lap":
            o = y - np.diag(np.diag(y))
            y = np.diag(o.sum(1)) - o
        elif c["kind"] == "graph":
            # connected graph of lines with positive resistance: every proper principal block is regular
            w = np.abs(y.real) + 0.3 - 1j * (np.abs(y.imag) + 0.1)
            m = (np.abs(np.round(y.real * 8)) % 3 == 0)
            m = m | m.T
            for i in range(1, n):
                m[i, i - 1] = m[i - 1, i] = True
            # some reduced nodes cut off from all others, such as those behind an open switch or a removed connection
            isl = idx[:min(c.get("island", 0), len(idx))]
            for i in isl:
                for j in range(n):
                    if j not in isl:
                        m[i, j] = m[j, i] = False
            y = np.zeros((n, n), dtype=complex)
            for i in range(n):
                for j in range(i):
                    if m[i, j]:
                        tight = i in idx and j in idx and (i + j) % 2
                        strong = strong or bool(tight and c.get("strong"))
                        N.stamp(y, i, j, w[i, j] * 10.0 ** (c.get("strong", 0) if tight else 0))
            live = set(i for i in range(n) if i not in idx)
            for _ in range(n):
                live |= set(i for i in range(n) if any(m[i, j] for j in live))
            dead = [i for i in range(n) if i not in live]
        else:
            y = y + 12 * n * np.eye(n)
    kept = [i for i in range(n) if i not in idx]
    allidx, idx = idx, [i for i in idx if i not in dead]        # an island leaves nothing behind
    if idx:
        B = y[np.ix_(idx, idx)]
        if np.linalg.cond(B) > 1e8:
            raise Discard("reduced block singular")
    want = y[np.ix_(kept, kept)]
    if idx:
        want = want - y[np.ix_(kept, idx)] @ np.linalg.solve(B, y[np.ix_(idx, kept)])
    sc = float(np.max(np.abs(y))) + 1e-300
    mk = (lambda m: np.asmatrix(m.copy())) if c["cls"] == "matrix" else (lambda m: layout(m.copy(), c.get("lay", 0)))
    ix = {"list": list, "tuple": tuple, "array": lambda l: np.array(l, dtype=int), "float": lambda l: np.array(l, dtype=float)}[c["ix"]]
    if not c["net"]:
        ym, ia = mk(y), ix(allidx)
        got = net.kron_reduction(ia, ym)
        exact(np.asarray(ym), y, "input matrix unchanged")
        exact(np.asarray(ia, dtype=float), np.asarray(allidx, dtype=float), "index list unchanged")
    got = np.asarray(got)
    amp = sc * (1 + (float(np.linalg.cond(B)) if idx else 0.0))
    close(got, want, "reduced matrix", rtol=1e-10, scale=amp)
    if strong and idx:      # lines much stronger than the others must not hide them
        near = float(np.max(np.abs(want))) + float(np.max(np.abs(y[np.ix_(kept, kept)])))
        close(got, want, "reduced matrix (strong lines)", rtol=min(1e-3, 1e-12 * float(np.linalg.cond(B))), scale=near)
    # behaviour: zero current at the reduced nodes
    v = cplx(c["v"])[:len(kept)]
    v = np.resize(v, len(kept)) if len(v) else np.ones(len(kept))
    full = np.zeros(n, dtype=complex)
    full[kept] = v
    if idx:
        full[idx] = -np.linalg.solve(B, y[np.ix_(idx, kept)] @ v)
    cur = y @ full
    close(got @ v, cur[kept], "currents of the remaining nodes", rtol=1e-9, scale=amp * (1 + float(np.max(np.abs(full))) if n else 1) * n)
    if np.array_equal(y, y.T):
        close(got, got.T, "symmetry preserved", rtol=1e-10, scale=amp)
    if float(np.max(np.abs(y.sum(1)))) < 1e-9 * sc:
        close(got.sum(1), np.zeros(len(kept)), "zero row sums preserved", rtol=1e-9, scale=amp * n)
    # several steps, in another order
    order = [allidx[k] for k in c["order"] if k < len(allidx)]
    order += [i for i in allidx if i not in order]
    cuts = sorted(k % (len(order) + 1) for k in c["cut"])
    cur_y, alive = mk(y), list(range(n))
    steps = 0
    for part in (order[:cuts[0]], order[cuts[0]:cuts[1]], order[cuts[1]:]):
        pos = [alive.index(i) for i in part]
        if pos:
            blk = np.asarray(cur_y)[np.ix_(pos, pos)]
            if np.linalg.cond(blk) > 1e6:
                return {"labels": ["singular step"], "nontrivial": False}
            steps += 1
        cur_y = net.kron_reduction(ix(pos), cur_y)
        alive = [i for i in alive if i not in part]
    require(alive == kept, "harness: order of kept nodes")
    close(np.asarray(cur_y), want, "reduction in %d steps" % steps, rtol=1e-7, scale=amp)
    return {"labels": (["island"] if dead else []) + (["strong"] if strong else []) + [c["kind"] if not c["net"] else "network", c["cls"], c["ix"], "steps=%d" % steps],
            "nontrivial": len(idx) >= 2 and len(kept) >= 2}
