"""Random distribution networks and their independent admittance model.

A network description is plain JSON: buses [{id, t, p, q, kv, z, i}] in creation order, lines [{f, t, r, x, l, s, ty}]
(r and x in per unit on 1 MVA, s = 1 in service)."""
from pbt.common import size


def strategy(st, nmin=2, nmax=6, three=False, loads="pq", zi=False, status=True, kvs=(4.16, 20.0, 0.4), order=True, extra=4,
             all_loads=False, grids=1, big=None, neg=False):
    big = big or nmax + (4 if three else 9)
    ids = size(st, nmin, nmax, big).flatmap(lambda n: st.lists(st.integers(0, 40), min_size=n, max_size=n, unique=True))
    if not order:
        ids = size(st, nmin, nmax, big).map(lambda n: list(range(1, n + 1)))
    P = st.integers(0, 64).map(lambda k: k / 64.0)
    if neg:         # also generation and capacitive loads
        P = st.one_of(P, P, st.integers(-32, -1).map(lambda k: k / 64.0))

    @st.composite
    def s(draw):
        bid = draw(ids)
        n = len(bid)
        pcc = draw(st.integers(0, n - 1))
        more = [(pcc + 1 + k) % n for k in range(draw(st.integers(0, min(grids - 1, n - 2))))] if grids > 1 and n > 2 else []
        kv = draw(st.sampled_from(list(kvs)))
        buses = []
        for k, b in enumerate(bid):
            if k == pcc or k in more:
                buses.append({"id": b, "t": 3, "p": 5.0, "q": 5.0, "kv": kv})
            else:
                asym = three and draw(st.booleans())
                d = {"id": b, "t": 1, "kv": kv}
                dead = (not all_loads) and draw(st.integers(0, 5)) == 0
                if asym:
                    d["p"] = [0.0 if dead else draw(P) for _ in range(3)]
                    d["q"] = [0.0 if dead else draw(P) for _ in range(3)]
                else:
                    d["p"], d["q"] = (0.0, 0.0) if dead else (draw(P), draw(P) / 2)
                if all_loads:
                    d["p"] = [x + 0.1 for x in d["p"]] if asym else d["p"] + 0.1
                    d["q"] = [x + 0.05 for x in d["q"]] if asym else d["q"] + 0.05
                if zi:
                    d["z"] = draw(st.sampled_from([0, 0, 30, 100]))
                    d["i"] = draw(st.sampled_from([0, 0, 40])) if d["z"] < 100 else 0
                buses.append(d)
        lines = []

        def line(f, t, s_):
            if draw(st.booleans()):
                f, t = t, f
            lines.append({"f": f, "t": t, "r": draw(st.sampled_from([0.01, 0.002, 0.03, 0.0])),
                          "x": draw(st.sampled_from([0.01, 0.004, 0.05, 0.02])),
                          "l": draw(st.sampled_from([1.0, 0.25, 2.0, 0.7])), "s": s_,
                          "ty": draw(st.sampled_from(["OG3", "UG3", "OG1", "UG3CIGRE"]))})
        for k in range(1, n):
            line(bid[k], bid[draw(st.integers(0, k - 1))], 1)
        for _ in range(draw(st.integers(0, extra)) if n > 1 else 0):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if i != j:
                line(bid[i], bid[j], draw(st.sampled_from([1, 0])) if status else 1)
        if draw(st.booleans()):
            lines.reverse()
        return {"buses": buses, "lines": lines}
    return s()


def bus_data(d, three=False, scale=1.0):
    from src.simulation.load_profile import BusData
    out = []
    for b in d["buses"]:
        p, q = b["p"], b["q"]
        if isinstance(p, list):
            p, q = tuple(scale * x for x in p), tuple(scale * x for x in q)
        elif b["t"] == 1:
            p, q = scale * p, scale * q
        out.append(BusData(b["id"], b["t"], p, q, kv=b["kv"], z_perc=b.get("z", 0), i_perc=b.get("i", 0)))
    return out


def line_data(d, three=False):
    from src.simulation.lines import LineData
    kv = d["buses"][0]["kv"]
    if three:
        return [LineData(l["f"], l["t"], l["l"], l["ty"], s=l["s"]) for l in d["lines"]]
    return [LineData(l["f"], l["t"], l["l"], r=l["r"] * kv * kv, x=l["x"] * kv * kv, s=l["s"]) for l in d["lines"]]


def y_ref(d, index=None):
    """per-unit nodal admittance from the description; rows in order of index (bus ids), default creation order"""
    import numpy as np
    ids = [b["id"] for b in d["buses"]] if index is None else list(index)
    pos = {b: k for k, b in enumerate(ids)}
    y = np.zeros((len(ids), len(ids)), dtype=complex)
    for l in d["lines"]:
        if l["s"]:
            stamp(y, pos[l["f"]], pos[l["t"]], 1.0 / (l["r"] + 1j * l["x"]))
    return y


def stamp(y, i, j, g):
    y[i, i] += g
    y[j, j] += g
    y[i, j] -= g
    y[j, i] -= g


def y3_ref(d, types, index=None):
    """(bus, phase) ordered phase admittance in per unit"""
    import cmath
    import numpy as np
    ids = [b["id"] for b in d["buses"]] if index is None else list(index)
    pos = {b: k for k, b in enumerate(ids)}
    n = len(ids)
    kv = d["buses"][0]["kv"]
    zb = kv * kv / 3.0       # phase-to-ground voltage, 1 MVA per phase
    y0, y1 = np.zeros((n, n), dtype=complex), np.zeros((n, n), dtype=complex)
    for l in d["lines"]:
        if l["s"]:
            t = types[l["ty"]]
            stamp(y0, pos[l["f"]], pos[l["t"]], zb / (l["l"] * (t["r0_ohm_per_km"] + 1j * t["x0_ohm_per_km"])))
            stamp(y1, pos[l["f"]], pos[l["t"]], zb / (l["l"] * (t["r_ohm_per_km"] + 1j * t["x_ohm_per_km"])))
    a = cmath.exp(2j * cmath.pi / 3)
    A = np.array([[a ** (-i * j) for j in range(3)] for i in range(3)])
    Ai = np.array([[a ** (i * j) for j in range(3)] for i in range(3)]) / 3
    out = np.zeros((3 * n, 3 * n), dtype=complex)
    for i in range(n):
        for j in range(n):
            out[3 * i:3 * i + 3, 3 * j:3 * j + 3] = A @ np.diag([y0[i, j], y1[i, j], y1[i, j]]) @ Ai
    return out, y0, y1


def edits(st, n=4):
    """a history of network edits: (kind, line, bus, bus)"""
    k = st.integers(0, 20)
    return st.lists(st.tuples(st.sampled_from(["move", "move", "off", "on", "longer", "add", "drop"]), k, k, k).map(list), max_size=n)


def connected(d):
    seen, todo = set(), [d["buses"][0]["id"]]
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo += [l["t"] for l in d["lines"] if l["s"] and l["f"] == b] + [l["f"] for l in d["lines"] if l["s"] and l["t"] == b]
    return len(seen) == len(d["buses"])


def apply_edit(d, net, tab, op, create):
    """Apply one edit to the description d (lines in service and not) and to the network; tab: table index of every line
    of d (None when the line does not exist in the table). Returns (d, tab), unchanged when the edit does not apply."""
    kind, i, a, b = op
    ids = [x["id"] for x in d["buses"]]
    f, t = ids[a % len(ids)], ids[b % len(ids)]
    i %= len(d["lines"])
    l = d["lines"][i]
    rest, rtab = d["lines"][:i] + d["lines"][i + 1:], tab[:i] + tab[i + 1:]
    if kind == "move" or kind == "add":
        if f == t or (kind == "move" and tab[i] is None):
            return d, tab
        new = dict(l, f=f, t=t, s=1)
        lines, ntab = (rest, rtab) if kind == "move" else (d["lines"], tab)
        d2 = dict(d, lines=lines + [new])
        if not connected(d2):
            return d, tab
        if kind == "move":
            net.remove_line(tab[i])
        before = set(net.line.index)
        create(new)
        fresh = [k for k in net.line.index if k not in before]
        return d2, ntab + [fresh[0] if fresh else None]
    if tab[i] is None:
        return d, tab
    if kind == "drop":
        d2 = dict(d, lines=rest)
        if not connected(d2):
            return d, tab
        net.remove_line(tab[i])
        return d2, rtab
    if kind == "longer":
        new = dict(l, r=2 * l["r"], x=2 * l["x"], l=2 * l["l"])
    else:
        new = dict(l, s=1 if kind == "on" else 0)
    d2 = dict(d, lines=d["lines"][:i] + [new] + d["lines"][i + 1:])
    if not connected(d2):
        return d, tab
    if kind == "longer":
        net.line.loc[tab[i], "length_km"] = new["l"]
    else:
        net.line.loc[tab[i], "in_service"] = bool(new["s"])
    return d2, tab


def line_table(d, net):
    """table index of every line of the description (built in order, only lines in service)"""
    it, out = iter(list(net.line.index)), []
    for l in d["lines"]:
        out.append(next(it) if l["s"] else None)
    return out


def snapshot(net):
    """Everything the user describes about a network, as comparable text."""
    out = {}
    for t in ("bus", "line", "load", "asymmetric_load", "ext_grid", "controller"):
        df = net[t]
        if t == "controller":
            out[t] = str(len(df))
        else:
            out[t] = df.sort_index(axis=1).to_csv()
    out["sn"] = repr(net.sn_mva)
    out["name"] = repr(net.name)
    return out


def same_snapshot(a, b, what, require):
    for t in a:
        require(a[t] == b[t], "%s: table %s changed\n%s\n->\n%s" % (what, t, a[t][:300], b[t][:300]))


def clean_sims(ctx):
    """remove the output directories of earlier runs (named after the second they started in; scratch data directory only)"""
    import os
    import shutil
    d = str(ctx.conf.SIM_DIR)
    if not d.startswith(str(ctx.tmp)) or not os.path.isdir(d):
        return
    for e in os.listdir(d):
        if e.startswith("sim_2"):
            shutil.rmtree(os.path.join(d, e), ignore_errors=True)
