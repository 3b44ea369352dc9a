"""C24: reduce_network for single- and three-phase networks."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a network (3..8 buses single-phase, 3..5 three-phase, arbitrary ids, order and grid connection position, "
        "meshed or radial, with passive nodes), any list of hidden nodes, with or without the grid connection listed, Laplacian or not, "
        "and measurements obeying I = Y V with the hidden loads constant impedances (any, also active ones). Oracle: the "
        "reduced admittance maps remaining voltages (variations) to remaining currents. Non-trivial: at least one node is "
        "reduced, at least 2 columns remain and at least one hidden node has a load.")
EXAMPLES = {"quick": 480, "thorough": 8000}


def strategy(st):
    @st.composite
    def case(draw):
        three = draw(st.booleans())
        d = draw(N.strategy(st, 3 if three else 4, 5 if three else 8, three=three, kvs=(4.16, 20.0), grids=2, neg=True))
        # more passive nodes, also partly passive ones
        for b in d["buses"]:
            if b["t"] == 1:
                if isinstance(b["p"], list):
                    mask = draw(st.sampled_from([7, 7, 7, 6, 5, 4, 3, 2, 1, 0]))    # loaded phases
                    for m in range(3):
                        if not mask >> m & 1:
                            b["p"][m] = b["q"][m] = 0.0
                elif draw(st.integers(0, 4)) == 0:
                    b["p"] = b["q"] = 0.0
        ids = [b["id"] for b in d["buses"] if b["t"] == 1]
        pcc = [b["id"] for b in d["buses"] if b["t"] == 3]
        stay = []
        if draw(st.integers(0, 7)) < 7:
            # keep a loaded node or two
            stay = draw(st.lists(st.sampled_from(ids), unique=True, min_size=1, max_size=2))
            for b in d["buses"]:
                if b["id"] in stay:
                    b["p"] = [x + 0.25 for x in b["p"]] if isinstance(b["p"], list) else b["p"] + 0.25
        may = [b for b in ids if b not in stay] or ids
        hid = draw(st.lists(st.sampled_from(may), unique=True, min_size=draw(st.sampled_from([1, 1, 1, 0])),
                            max_size=draw(st.sampled_from([1, 2, len(may)]))))
        lap = draw(st.sampled_from([False, False, True]))
        if draw(st.booleans()) and not lap:
            hid.insert(draw(st.integers(0, len(hid))), draw(st.sampled_from(pcc)))
        return {"lay": draw(layouts(st)), "three": three, "net": d, "hidden": hid, "lap": lap, "t": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 9999)),
                "arr": draw(st.booleans()), "single": draw(st.booleans()), "noload": draw(st.integers(0, 4)) == 4,
                "verbose": draw(st.booleans()), "bal": draw(st.booleans())}
    return case()


def check(c, ctx):
    import numpy as np
    from src.simulation import run, run3ph
    from src.simulation.net_templates_3ph import ieee123_types
    from src.simulation.simulation import SimulatedNet
    from src.simulation.simulation_3ph import SimulatedNet3P
    d, three = c["net"], c["three"]
    sc = 0.01 if three else 0.05
    bd = N.bus_data(d, scale=sc)
    net = SimulatedNet3P(ieee123_types, bd, N.line_data(d, True)) if three else SimulatedNet(bd, N.line_data(d))
    net.name = "pbt24"
    ids = [b["id"] for b in d["buses"]]
    P = 3 if three else 1
    Y = N.y3_ref(d, ieee123_types)[0] if three else N.y_ref(d)
    n = len(ids) * P
    pcc = [k for k, b in enumerate(d["buses"]) if b["t"] == 3]
    hidden = [ids.index(h) for h in c["hidden"]]
    # which columns go
    passive = []
    for k, b in enumerate(d["buses"]):
        if b["t"] == 3:
            continue
        p, q = b["p"], b["q"]
        act = [(x != 0 or y != 0) for x, y in zip(p, q)] if isinstance(p, list) else [p != 0 or q != 0] * P
        if three and not c["single"] and any(act):
            act = [True] * 3
        passive += [k * P + m for m in range(P) if not act[m]]
    hid = [k * P + m for k in hidden for m in range(P) if k not in pcc]
    pc = [k * P + m for k in pcc for m in range(P)]
    red = sorted(set(passive + hid))
    gone = sorted(set(red + (pc if not c["lap"] else [])))
    keep = [k for k in range(n) if k not in gone]
    if not keep:
        raise Discard("nothing left")
    # measurements: remaining nodes inject anything, reduced ones follow from their constant impedances
    rng = np.random.RandomState(c["seed"])
    T = c["t"]
    s = np.zeros(n, dtype=complex)
    scale = float(np.max(np.abs(Y)))
    for k in hidden:
        if k in pcc or c["noload"]:
            continue
        v = 0.3 * scale * rng.rand() * np.exp(2j * np.pi * rng.rand(P))
        if c["bal"]:
            v = np.full(P, v[0])
        s[k * P:k * P + P] = v
    for k in passive:
        if k not in hid:
            s[k] = 0
    pas_hidden = [k for k in hid if k in passive]
    s[pas_hidden] = 0
    A = (Y - np.diag(s))[np.ix_(red, red)]
    if red and np.linalg.cond(A) > 1e5:
        raise Discard("nearly singular reduction")
    o = [k for k in range(n) if k not in red]
    V = np.zeros((T, n), dtype=complex)
    V[:, o] = 1 + 0.1 * (rng.randn(T, len(o)) + 1j * rng.randn(T, len(o)))
    if three:
        V *= np.tile(np.exp(-2j * np.pi / 3 * np.arange(3)), len(ids))
    V[:, pc] = V[0, pc]
    if red:
        V[:, red] = -np.linalg.solve(A, Y[np.ix_(red, o)] @ V[:, o].T).T
    if np.max(np.abs(V)) > 1e3 or (hid and np.min(np.abs(V[:, hid].mean(0))) < 1e-3):
        raise Discard("badly scaled measurements")
    I = V @ Y
    I[:, [k for k in red if s[k] == 0]] = 0
    # the mean of a single impedance is exact
    V, I = layout(V, c.get("lay", 0)), layout(I, c.get("lay", 0))
    V0, I0 = V.copy(), I.copy()
    before = N.snapshot(net)
    h = np.array(c["hidden"]) if c["arr"] and c["hidden"] else list(c["hidden"])
    if three:
        todel, y = run3ph.reduce_network(net, V, I, h, c["lap"], c["single"], c["verbose"])
    else:
        todel, y = run.reduce_network(net, V, I, h, c["lap"], c["verbose"])
    exact(V, V0, "voltages unchanged")
    exact(I, I0, "currents unchanged")
    require(list(h) == list(c["hidden"]), "hidden nodes unchanged")
    N.same_snapshot(before, N.snapshot(net), "reduce_network", require)
    got = sorted(set(int(k) for k in np.ravel(todel)))
    require(got == gone, "removed columns %r, expected %r (grid connection %r, passive %r, hidden %r)" % (got, gone, pc, passive, hid))
    y = np.asarray(y)
    require(y.shape == (len(keep), len(keep)), "reduced admittance of shape %r for %d remaining columns" % (y.shape, len(keep)))
    vr = np.delete(V, todel, axis=1) if len(got) else V
    ir = np.delete(I, todel, axis=1) if len(got) else I
    cond = 1 + (np.linalg.norm(A, 2) * np.linalg.norm(np.linalg.inv(A), 2) if red else 0)
    m = float(np.max(np.abs(V))) * scale * n
    if c["lap"]:
        close(vr @ y, ir, "reduced admittance applied to the remaining voltages", rtol=1e-9 * cond, scale=m)
        if not np.any(s):
            e = y.sum(1)
            if three:
                e = np.hstack([y[:, [k for k, col in enumerate(keep) if col % 3 == a]].sum(1) for a in range(3)]) if len(keep) == n else np.zeros(1)
            if not three:
                close(e, 0 * e, "row sums of a reduced Laplacian", rtol=0, atol=1e-9 * cond * scale * n)
                close(y, y.T, "symmetry of a reduced Laplacian", rtol=1e-9 * cond, scale=scale)
            elif all(len([1 for col in keep if col // 3 == k]) in (0, 3) for k in range(len(ids))):
                # equal voltages of every phase at all buses drive no current
                for a in range(3):
                    u = np.array([1.0 if col % 3 == a else 0 for col in keep])
                    close(y @ u, 0 * u, "currents of equal voltages on phase %d" % a, rtol=0, atol=1e-9 * cond * scale * n)
    else:
        dv, di = vr - vr[0], ir - ir[0]
        close(dv @ y, di, "reduced admittance applied to voltage variations", rtol=1e-9 * cond, scale=m)
        # every direction, not only the measured ones
    F = Y - np.diag(s)
    if red:
        F = F[np.ix_(o, o)] - F[np.ix_(o, red)] @ np.linalg.solve(A, F[np.ix_(red, o)])
        q = [k for k, col in enumerate(o) if col in keep]
        F = F[np.ix_(q, q)]
    else:
        F = F[np.ix_(keep, keep)]
    close(y, F, "reduced admittance", rtol=1e-9 * cond, scale=scale * n)
    loaded = bool(np.any(s))
    return {"labels": ["three" if three else "single", "laplacian" if c["lap"] else "no pcc", "hidden=%d" % min(len(hid), 4), "passive=%d" % min(len(passive), 4),
                       "loaded" if loaded else "no hidden load"],
            "nontrivial": len(red) > 0 and len(keep) >= 2 and loaded}
