"""C29: histories of simulate/identify commands against a model of the result files."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a small single- or three-phase network, simulation settings and a history of 2..5 commands: simulations "
        "(everything, or any subset of loads/network/noise again, with changed load spread or noise level in between), and "
        "identifications (all, standard only, Bayesian only, continued, weighted, unsynchronised, uncertainty; "
        "phases or sequences). After every command all result files are compared with a model that keeps what each stage "
        "last produced. Non-trivial: at least one partial re-run or continued identification, on at least 2 kept nodes.")
EXAMPLES = {"quick": 96, "thorough": 900}
ASSUMPTIONS = ["--exact is only used on networks of 31 to 33 buses: it inserts lines of the shipped 56-node network by position",
               "the stages called by the commands are decided by C13-C27; C29 decides how the commands combine them",
               "days is replaced by a fraction of a day so that a simulation takes well below a second"]
A, B = "pbt29", "pbt29ref"


class Days(object):
    """days * 24 * 60 == number of minutes"""

    def __init__(self, v):
        from fractions import Fraction
        self.v = Fraction(v)

    def _out(self, v):
        return int(v) if v.denominator == 1 else Days(v)

    def __mul__(self, o):
        from fractions import Fraction
        return self._out(self.v * Fraction(int(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        from fractions import Fraction
        return Days(self.v / Fraction(int(o)))

    def __float__(self):
        return float(self.v)


def strategy(st):
    @st.composite
    def case(draw):
        if draw(st.integers(0, 23)) == 23:       # known lines of the 56-bus network, by position
            rad = draw(N.strategy(st, 31, 32, extra=0, kvs=(4.16, 20.0), all_loads=True, big=33))
            cmds = [{"c": "sim", "f": "", "g": 0.1, "nl": 1.0}]
            for f in draw(st.sampled_from([[""], ["", "bc"], ["", "b"]])):
                cmds.append({"c": "id", "f": f, "w": draw(st.booleans()), "e": draw(st.integers(0, 3)) > 0, "u": False, "r": False, "i": 1})
            return {"three": False, "net": rad, "lap": draw(st.integers(0, 3)) == 0, "seq": False, "ph": "1", "cmds": cmds,
                    "eq": True, "profile": False, "steps": 70, "f": 1, "minutes": 9, "hide": 0, "const": False, "verbose": False,
                    "lam": draw(st.sampled_from([1e-6, 1e2, 1e6]))}
        three = draw(st.sampled_from([False, False, True]))
        d = draw(N.strategy(st, 3, 4 if three else 6, three=three, extra=1, kvs=(4.16, 20.0), all_loads=draw(st.integers(0, 2)) > 0))
        lap = draw(st.booleans())
        seq = three and draw(st.integers(0, 2)) > 0
        if seq:
            ph = draw(st.sampled_from(["012", "0", "1", "2"]))
        else:
            ph = draw(st.sampled_from(["1", "2", "3"])) if three else "1"
        g = st.sampled_from([0.1, 0.05])
        cmds = [{"c": "sim", "f": "", "g": draw(g), "nl": 1.0}]
        nid = 0
        for _ in range(draw(st.integers(1, 4))):
            if draw(st.booleans()):
                cmds.append({"c": "sim", "f": draw(st.sampled_from(["d", "s", "p", "sd", "pd", "ps", "psd", ""])), "g": draw(g),
                             "nl": draw(st.sampled_from([1.0, 1.0, 3.0])), "missing": draw(st.integers(0, 9)) == 0})
            else:
                f = "" if nid == 0 else draw(st.sampled_from(["", "s", "b", "bs", "bc", "bc", "c", "sc", "bsc"]))
                nid += 1
                cmds.append({"c": "id", "f": f, "w": draw(st.booleans()), "e": False,
                             "u": draw(st.integers(0, 2)) == 0, "r": draw(st.integers(0, 3)) == 0, "i": draw(st.sampled_from([1, 2, 3]))})
        if nid and draw(st.booleans()):
            cmds.append({"c": "id", "f": "bc", "w": draw(st.booleans()), "e": False, "u": False, "r": False, "i": 2})
        return {"three": three, "net": d, "lap": lap, "seq": seq, "ph": ph, "cmds": cmds, "eq": draw(st.booleans()),
                "profile": draw(st.sampled_from([False, False, True])), "steps": draw(st.integers(12, 24)),
                "f": draw(st.integers(1, 3)), "minutes": draw(st.sampled_from([5, 6, 9])),
                "hide": draw(st.sampled_from([0, 0, 1])), "const": draw(st.booleans()), "verbose": draw(st.integers(0, 3)) == 0, "part": draw(st.booleans())}
    return case()


def load(ctx, what):
    import numpy as np
    with np.load(ctx.conf.DATA_DIR / "simulations_output" / (what + ".npz"), allow_pickle=True) as z:
        return {k: z[k] for k in z.files}


def check(c, ctx):
    import glob
    import os
    import shutil
    import numpy as np
    import conf.simulation as cs
    import conf.identification as ci
    from src.simulation import net_templates, net_templates_3ph
    names = ("hidden_nodes", "constant_load_hidden_nodes", "selected_weeks", "days", "time_steps", "measurement_frequency",
             "safety_factor", "voltage_magnitude_sd", "current_magnitude_sd", "voltage_phase_sd", "current_phase_sd")
    old = {k: getattr(cs, k) for k in names}
    tmpl = net_templates_3ph if c["three"] else net_templates
    out = str(ctx.conf.DATA_DIR / "simulations_output")
    for f in glob.glob(os.path.join(out, "*.npz")):
        os.unlink(f)
    lam = ci.lambda_eiv
    try:
        ci.lambda_eiv = c.get("lam", lam)
        return history(c, ctx, cs, tmpl)
    finally:
        ci.lambda_eiv = lam
        for k, v in old.items():
            setattr(cs, k, v)
        for nm in (A, B):
            for s in ("_bus", "_net"):
                if hasattr(tmpl, nm + s):
                    delattr(tmpl, nm + s)
        from src.simulation.simulation import SIM_DIR
        for dr in (out, str(SIM_DIR)):
            if dr.startswith(ctx.tmp):
                for f in glob.glob(os.path.join(dr, "sim_2*")):
                    shutil.rmtree(f, ignore_errors=True)


def history(c, ctx, cs, tmpl):
    import os
    import numpy as np
    import simulate_network
    import identify_network
    d, three = c["net"], c["three"]
    if three and not c.get("part"):        # every bus has all phases loaded or none
        for b in d["buses"]:
            if isinstance(b["p"], list) and c["seq"] and any(b["p"][k] == 0 and b["q"][k] == 0 for k in range(3)) and any(b["p"] + b["q"]):
                b["p"] = [x + 0.1 for x in b["p"]]
    if three and c.get("part"):             # one bus is loaded on two phases only
        b = [b for b in d["buses"] if b["t"] == 1][-1]
        b["p"], b["q"] = (x if isinstance(x, list) else [x] * 3 for x in (b["p"], b["q"]))
        b["p"] = [0.0] + [x + 0.1 for x in b["p"][1:]]
        b["q"] = [0.0] + b["q"][1:]
    pcc = [b["id"] for b in d["buses"] if b["t"] == 3]
    loaded = [b["id"] for b in d["buses"] if b["t"] == 1 and np.any(np.array(b["p"]) != 0)]
    hidden = loaded[:c["hide"]] if len(loaded) >= 4 else []
    if len(loaded) - len(hidden) < 2:
        raise Discard("less than two observed nodes")
    sc = 0.02 if three else 0.1 if len(loaded) < 20 else 0.003
    for nm in (A, B):
        setattr(tmpl, nm + "_bus", N.bus_data(d, three, scale=sc))
        setattr(tmpl, nm + "_net", N.line_data(d, three))
    cs.constant_load_hidden_nodes = c["const"]
    cs.selected_weeks = np.array([0])
    from fractions import Fraction
    cs.days = Days(Fraction(c["minutes"], 24 * 60))
    cs.time_steps = c["steps"]
    cs.measurement_frequency = (c["steps"] * c["f"] + 0.25) / ((c["minutes"] - 1) * 60)
    cs.safety_factor = 4
    base = {"voltage_magnitude_sd": 1e-4, "current_magnitude_sd": 1e-3, "voltage_phase_sd": 2e-4, "current_phase_sd": 1e-3}
    prof = []
    if c["profile"]:
        rng = np.random.RandomState(7)
        for nm in ("act.npy", "react.npy"):
            p = os.path.join(ctx.tmp, nm)
            np.save(p, rng.rand(60, 5) * (900 if nm[0] == "a" else 400))
            prof.append(p)

    def noise_level(nl):
        for k, v in base.items():
            setattr(cs, k, v * nl)

    def cli(fn, args):
        fn.main(args=[str(a) for a in args] + (["-v"] if c["verbose"] else []), standalone_mode=False)

    # ---- model: what each stage last produced (loads, network simulation, filtered data)
    from src.simulation import run as r1, run3ph as r3
    from src.simulation.lines import measurement_phase_to_sequence, admittance_phase_to_sequence
    rs = r3 if three else r1
    cache = {}

    def mload(g):
        if ("l", g) not in cache:
            net, _, _ = rs.make_net(B)
            const = (hidden + ([] if c["lap"] or three else pcc)) if c["const"] else None
            par = (prof[0], prof[1], cs.selected_weeks, cs.days, const) if c["profile"] else (None, None, g, cs.days, const)
            cache["l", g] = rs.generate_loads(net, par, verbose=False)
        return cache["l", g]

    def msim(g):
        if ("s", g) not in cache:
            net, _, _ = rs.make_net(B)
            import pandapower as pp
            try:
                cache["s", g] = rs.simulate_net(net, *mload(g)[:-1], verbose=False)
            except pp.LoadflowNotConverged:
                raise Discard("power flow does not converge")
        return cache["s", g]

    def mfile(g, nl, gl):
        """contents of the simulation file for the loads g of the simulation, the noise level nl and the load times"""
        if ("f", g, nl) not in cache:
            net, _, _ = rs.make_net(B)
            v, i, _ = msim(g)
            noise_level(nl)
            nv, ni, w, j, rate, fp = rs.add_noise_and_filter(
                net, v, i, mload(gl)[-1], cs.measurement_frequency, cs.time_steps,
                (cs.voltage_magnitude_sd, cs.current_magnitude_sd, cs.voltage_phase_sd, cs.current_phase_sd, c["eq"],
                 4 * np.ones(3) if three else 4), verbose=False)
            hid = list(hidden)
            if three:
                idx, y = r3.reduce_network(net, w, j, hid, c["lap"], not c["seq"], False)
            else:
                if not c["lap"]:
                    hid += pcc
                idx, y = r1.reduce_network(net, w, j, hid, c["lap"], False)
            drop = sorted(set(idx))
            cols = [k for k in range(v.shape[1]) if k not in drop]
            nv, ni, w, j = (m[:, cols] for m in (nv, ni, w, j))
            h = np.array([(k % 3) + 1 if three else 1 for k in cols])
            if c["seq"]:
                nv, ni, w, j = (measurement_phase_to_sequence(m) for m in (nv, ni, w, j))
                h, y = h - 1, admittance_phase_to_sequence(y)
            cache["f", g, nl] = {"i": ni, "v": nv, "j": j, "w": w, "y": y, "p": np.asarray(rate)[cols], "f": np.array(fp), "h": h}
        return cache["f", g, nl]

    loads = sim = noise = None
    simfile = None
    std = bay = None
    partial = 0
    labels = ["three" if three else "single", "lap" if c["lap"] else "general", "seq " + c["ph"] if c["seq"] else "phase " + c["ph"],
              "hidden" if hidden else "no hidden", "profile" if c["profile"] else "gaussian"]
    for step, cmd in enumerate(c["cmds"]):
        what = "command %d (%s -%s)" % (step + 1, "simulate" if cmd["c"] == "sim" else "identify", cmd["f"])
        cs.hidden_nodes = list(hidden)
        if cmd["c"] == "sim":
            noise_level(cmd["nl"])
            f = cmd["f"]
            args = ["-n", A] + ["-" + k for k in f]
            args += (["-t"] if three else []) + (["-q"] if c["seq"] else []) + (["-e"] if c["eq"] else []) + (["-l"] if c["lap"] else [])
            if cmd.get("missing") and ("p" in f or not f):
                before = {k: load(ctx, k) for k in ("sim_loads_" + A, "sim_results_" + A, "filtered_results_" + A, A)}
                try:
                    cli(simulate_network.simulate, args + ["-a", os.path.join(ctx.tmp, "nowhere.npy"), "-r", os.path.join(ctx.tmp, "nowhere.npy")])
                except (SystemExit, FileNotFoundError):
                    pass
                for k, v in before.items():
                    same_file(load(ctx, k), v, what + " with missing profiles: " + k)
                labels.append("missing")
                continue
            args += (["-a", prof[0], "-r", prof[1]] if c["profile"] else ["-g", cmd["g"]])
            g = 0 if c["profile"] else cmd["g"]
            nl = cmd["nl"]
            if step == 0:
                mfile(g, nl, g)      # not feasible: discard
                noise_level(nl)
            elif f:
                partial += 1
            labels.append("sim -" + f)
            # the model first, so that a power flow that does not converge leaves the domain
            if not f or "p" in f:
                loads = g
            if not f or "s" in f:
                msim(loads)
                sim = loads
            if not f or "d" in f:
                noise = (sim, nl)
            simfile = mfile(noise[0], noise[1], loads)
            noise_level(nl)
            cli(simulate_network.simulate, args)
            lp = load(ctx, "sim_loads_" + A)
            want = mload(loads)
            close(lp["p"], want[0], what + ": stored active loads", rtol=1e-12)
            close(lp["q"], want[1], what + ": stored reactive loads", rtol=1e-12)
            close(lp["t"], want[-1], what + ": stored times", rtol=1e-12)
            sr = load(ctx, "sim_results_" + A)
            close(sr["v"], msim(sim)[0], what + ": stored voltages", rtol=1e-10)
            close(sr["i"], msim(sim)[1], what + ": stored currents", rtol=1e-9)
            got = load(ctx, A)
            require(set(got) == set(simfile), "%s: keys %s" % (what, sorted(got)))
            n = len(simfile["h"])
            for k in "ivjw":
                require(got[k].shape == simfile[k].shape, "%s: %s has shape %s, expected %s" % (what, k, got[k].shape, simfile[k].shape))
                close(got[k], simfile[k], "%s: %s" % (what, k), rtol=1e-9)
            require(got["y"].shape == (n, n), "%s: admittance of shape %s for %d columns" % (what, got["y"].shape, n))
            close(got["y"], simfile["y"], what + ": reduced admittance", rtol=1e-9)
            close(got["p"], simfile["p"], what + ": ratings", rtol=1e-12)
            exact(got["f"], simfile["f"], what + ": block length")
            exact(got["h"], simfile["h"], what + ": phases")
            stored = got
            if not hidden and (c["lap"] or not three):     # with three phases the grid connection has an internal impedance
                w, j = got["w"], got["j"]
                ww, jj = (w, j) if c["lap"] else (w - w.mean(0), j - j.mean(0))
                close(ww @ got["y"], jj, what + ": Ohm's law", rtol=0, atol=1e-6 + 1e-9 * float(np.max(np.abs(got["y"]))))
        else:
            labels.append("id -" + cmd["f"] + (" known lines" if cmd["e"] and not c["lap"] else ""))
            n = len(simfile["h"])
            r = identify(c, cmd, ctx, cs, stored, std, bay, what, cli, identify_network)
            std, bay = r
            if cmd["f"]:
                partial += 1
    return {"labels": labels, "nontrivial": partial > 0 and len(simfile["h"]) >= 2}


def same_file(got, want, what):
    import numpy as np
    require(set(got) == set(want), "%s: keys %s, expected %s" % (what, sorted(got), sorted(want)))
    for k in want:
        if want[k].dtype == object:
            same_iterations(list(got[k]), list(want[k]), what)
        else:
            exact(got[k], want[k], what + ": " + k)


def same_iterations(got, want, what, other=None, near=None):
    import numpy as np
    require(len(got) == len(want), "%s: %d iterations stored, expected %d" % (what, len(got), len(want)))
    for k, (a, b) in enumerate(zip(got, want)):
        require(a.iteration == b.iteration, "%s: iteration %d is numbered %r, expected %r" % (what, k, a.iteration, b.iteration))
        if near is None:
            exact(np.asarray(a.fitted_parameters), np.asarray(b.fitted_parameters), "%s: iteration %d" % (what, k))
            require(float(a.target_function) == float(b.target_function), "%s: target %d" % (what, k))
        else:
            near(np.asarray(a.fitted_parameters), np.asarray(b.fitted_parameters), np.asarray(other[k].fitted_parameters), "%s: iteration %d" % (what, k))
            near(float(a.target_function), float(b.target_function), float(other[k].target_function), "%s: target %d" % (what, k))


def identify(c, cmd, ctx, cs, simfile, std, bay, what, cli, identify_network):
    import numpy as np
    from src.identification import run as r1, run3ph as r3
    ph, f = c["ph"], cmd["f"]
    joint = ph in ("012", "123")
    m = r3 if joint else r1
    sel = np.ones(len(simfile["h"]), dtype=bool) if joint or np.all(simfile["h"] == 1) else simfile["h"] == int(ph)
    if not np.any(sel) or sel.sum() < 2:
        raise Discard("less than two nodes on the phase")
    keep = np.flatnonzero(sel)
    nv, ni, w, j = (simfile[k][:, keep] for k in ("v", "i", "w", "j"))
    y = simfile["y"][np.ix_(keep, keep)]
    rate = simfile["p"][keep]
    if np.any(rate == 0):
        raise Discard("column without rating")
    ids = simfile["h"] if joint else None
    redo_s, redo_b = "s" in f or "b" not in f, "b" in f or "s" not in f
    sd = lambda mag, phs: (mag + 1j * phs) / np.sqrt(simfile["f"])
    vsd, isd = sd(cs.voltage_magnitude_sd, cs.voltage_phase_sd), sd(cs.current_magnitude_sd, cs.current_phase_sd)
    exa = y if cmd["e"] and not c["lap"] else None

    def model(nv, ni, w, j, std):
        if redo_s:
            std = [np.asarray(a) for a in m.standard_methods(B, nv.copy(), ni.copy(), ids, c["lap"], cmd["i"], False)]
        start = bay[0] if "c" in f else (std[1] + std[1].T) / 2
        res = bay
        if redo_b:
            e, its = m.bayesian_eiv(B, nv.copy(), ni.copy(), simfile["h"], vsd, isd, rate, start.copy(), exa, c["lap"], cmd["w"],
                                    cmd["i"], not cmd["r"], False)
            res = [np.asarray(e), (list(bay[1]) if "c" in f else []) + list(its)]
        fims = None
        if cmd["u"] and not joint and not cmd["r"]:
            a = m.eiv_fim(B, w, j, vsd, isd, rate, y, None, c["lap"], False)
            b = m.eiv_fim(B, nv, ni, vsd, isd, rate, res[0], None, c["lap"], False)
            fims = (np.asarray(a[1]), np.asarray(b[1]))
        return std, res, fims

    # how much of a rounding error in the data reaches the results: the problem may be ill-conditioned
    rng = np.random.RandomState(11)
    rough = [np.asfortranarray(a * (1 + 1e-13 * rng.randn(*a.shape))) for a in (nv, ni, w, j)]
    try:
        std2, bay2, fims2 = model(*rough, std)
        std, bay, fims = model(nv, ni, w, j, std)
    except np.linalg.LinAlgError:
        raise Discard("singular identification problem")
    if not all(np.all(np.isfinite(a)) for a in std + [bay[0]] + std2 + [bay2[0]]):
        raise Discard("identification diverged")
    if len(bay[1]) != len(bay2[1]):
        raise Discard("number of iterations decided by rounding")

    def near(got, want, other, msg):
        dev = float(np.max(np.abs(np.asarray(want) - other), initial=0))
        if not dev <= 1e-3 * float(np.max(np.abs(want), initial=0)):
            raise Discard("result decided by rounding")
        close(got, want, msg, rtol=1e-9, atol=10 * dev)
    args = ["-n", c["ph"] and A, "-i", cmd["i"], "-p", ph] + ["-" + k for k in f] + (["-q"] if c["seq"] else []) + \
        (["-l"] if c["lap"] else []) + (["-w"] if cmd["w"] else []) + (["-e"] if cmd["e"] else []) + \
        (["-u"] if cmd["u"] else []) + (["-r"] if cmd["r"] else [])
    cli(identify_network.identify, args)
    ref = load(ctx, "reference_results_" + A)
    exact(ref["y"], y, what + ": reference admittance")
    require(str(ref["p"]) == ph and bool(ref["l"]) == c["lap"], "%s: reference flags %r %r" % (what, ref["p"], ref["l"]))
    s = load(ctx, "standard_results_" + A)
    for k, want, other in zip("otl", std, std2):
        require(s[k].shape == y.shape, "%s: standard result %s of shape %s for %d nodes" % (what, k, s[k].shape, len(y)))
        near(s[k], want, other, "%s: standard result %s" % (what, k))
    b = load(ctx, "bayesian_results_" + A)
    require(b["y"].shape == y.shape, "%s: Bayesian result of shape %s for %d nodes" % (what, b["y"].shape, len(y)))
    near(b["y"], bay[0], bay2[0], what + ": Bayesian result")
    same_iterations(list(b["i"]), bay[1], what, bay2[1], near)
    if fims is not None:
        u = load(ctx, "uncertainty_results_" + A)
        k = 2 * len(y) ** 2
        for nm, want, other in zip("eb", fims, fims2):
            require(u[nm].shape == want.shape, "%s: uncertainty %s of shape %s, expected %s" % (what, nm, u[nm].shape, want.shape))
            if np.all(np.isfinite(want)):
                near(u[nm], want, other, "%s: uncertainty %s" % (what, nm))
    return [s[k] for k in "otl"], [b["y"], list(b["i"])]
