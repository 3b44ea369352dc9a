"""C14: three-phase bus admittance matrix."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a connected three-phase network (2..6 buses, arbitrary ids and order, one or two PCC anywhere, shipped or random "
        "line types (also named like built-in ones), lengths, parallel and broken lines, symmetric and asymmetric loads) built by constructor, template or "
        "create_line, then changed by up to two line edits. Reference: sequence admittances from the type tables carried to (bus, phase) entry by entry. "
        "Non-trivial: at least 3 buses, at least two different line types or lengths.")
EXAMPLES = {"quick": 400, "thorough": 4000}


def strategy(st):
    @st.composite
    def case(draw):
        return {"net": draw(N.strategy(st, 2, 6, three=True, kvs=(4.16, 20.0), extra=3, grids=2)), "edits": draw(N.edits(st, 2)),
                "how": draw(st.sampled_from(["ctor", "template", "create_line"])),
                "types": draw(st.sampled_from(["shipped", "random"])), "names": draw(st.sampled_from([0, 0, 1])),
                "tv": draw(st.lists(st.integers(1, 20), min_size=16, max_size=16)),
                "flip": draw(st.lists(st.booleans(), min_size=12, max_size=12))}
    return case()


def check(c, ctx):
    import numpy as np
    from src.simulation import net_templates_3ph, run3ph
    from src.simulation.network_3ph import NetData3P
    d, how = c["net"], c["how"]
    ids = [b["id"] for b in d["buses"]]
    types = {k: dict(v) for k, v in net_templates_3ph.ieee123_types.items()}
    if c["types"] == "random" and how != "template":
        for k, name in enumerate(sorted(types)):
            a = [v / 20.0 for v in c["tv"][4 * k:4 * k + 4]]
            types[name].update(r_ohm_per_km=a[0], x_ohm_per_km=a[1], r0_ohm_per_km=a[2] + 0.1, x0_ohm_per_km=a[3] + 0.2)
        if c["names"]:          # names that pandapower knows too
            new = dict(zip(sorted(types), ["NAYY 4x50 SE", "149-AL1/24-ST1A 10.0", "NA2XS2Y 1x95 RM/25 12/20 kV", "243-AL1/39-ST1A 20.0"]))
            types = {new[k]: v for k, v in types.items()}
            d = dict(d, lines=[dict(l, ty=new[l["ty"]]) for l in d["lines"]])
    ref, y0, y1 = N.y3_ref(d, types)
    bd, ld = N.bus_data(d, scale=0.01), N.line_data(d, True)
    if how == "ctor":
        net = NetData3P(types, bd, ld)
    elif how == "template":
        net_templates_3ph.pbt_bus, net_templates_3ph.pbt_net = bd, ld
        net = run3ph.make_net("pbt")[0]
    else:
        import pandapower as pp
        net = NetData3P(types, bd)
        for l in d["lines"]:
            if l["s"]:
                net.create_line(l["f"], l["t"], l["l"], l["ty"])
        pp.add_zero_impedance_parameters(net)
    require(list(net.bus.index) == ids, "buses %r, expected %r" % (list(net.bus.index), ids))
    before = N.snapshot(net)
    y = np.asarray(net.make_y_bus())
    close(y, ref, "three-phase admittance matrix (%s)" % how, rtol=1e-9)
    N.same_snapshot(before, N.snapshot(net), "make_y_bus", require)
    close(y, y.T, "symmetric", rtol=1e-10)
    # the sequence representation recovers the line tables
    from src.simulation.lines import admittance_phase_to_sequence
    s = np.asarray(admittance_phase_to_sequence(y))
    sc = float(np.max(np.abs(s)))
    for k, want in enumerate((y0, y1, y1)):
        close(s[k::3, k::3], want, "sequence %d part" % k, rtol=1e-9, scale=sc)
        for m in range(3):
            if m != k:
                close(s[k::3, m::3], 0 * want, "coupling of sequences %d and %d" % (k, m), rtol=1e-9, scale=sc)
    # invariant to the direction of the lines and to splitting a line into two parallel ones
    d2 = dict(d, lines=[])
    for l, f in zip(d["lines"], c["flip"] * 2):
        if f:
            d2["lines"] += [dict(l, f=l["t"], t=l["f"], l=2 * l["l"]), dict(l, l=2 * l["l"])]
        else:
            d2["lines"].append(dict(l, f=l["t"], t=l["f"]))
    net2 = NetData3P(types, bd, N.line_data(d2, True))
    close(np.asarray(net2.make_y_bus()), y, "admittance after turning and splitting lines", rtol=1e-9)
    d3, tab, done = d, N.line_table(d, net), 0
    for k, op in enumerate(c.get("edits", [])):
        d4, tab = N.apply_edit(d3, net, tab, op, lambda l: net.create_line(l["f"], l["t"], l["l"], l["ty"]))
        done += d4 is not d3
        d3 = d4
    if done:
        if any(op[0] in ("move", "add") for op in c["edits"]):
            import pandapower as pp
            pp.add_zero_impedance_parameters(net)
        close(np.asarray(net.make_y_bus()), N.y3_ref(d3, types)[0], "admittance matrix after edits %r" % c["edits"], rtol=1e-9)
    kinds = {(l["ty"], l["l"]) for l in d["lines"] if l["s"]}
    n = len(ids)
    return {"labels": [how, c["types"], "n=%d" % n] + (["edited"] if done else []), "nontrivial": n >= 3 and len(kinds) >= 2}
