"""C23 at run time: synthetic statistics files against what was written in them."""
import numpy as np
import unyt

from vlib.execlib import case, check, internal

WORDS = ["Time", "Scale factor", "Redshift", "Total mass", "Gas mass", "DM mass", "Kinetic energy", "Entropy", "Radiated energy", "Steps",
         "Momentum x", "Momentum y", "BH count", "SFR", "Metal mass", "Max accretion rate", "Potential"]
UNITS = ["dimensionless", "1.988410e+43 g", "9.778131e+05 Myr", "3.086e+24 cm", "1.0 Msun/yr", "1e10 Msun", "2.5 km/s", "1.0 erg", "6.5"]


def number(rng, style):
    if style == "int":
        return str(int(rng.integers(-5, 2**40)))
    if style == "float":
        return f"{rng.normal() * 10.0 ** rng.integers(-5, 6):.6f}"
    if style == "exp":
        return f"{rng.normal() * 10.0 ** rng.integers(-30, 30):.8e}"
    if style == "EXP":
        return f"{rng.normal() * 10.0 ** rng.integers(-30, 30):.8E}"
    if style == "short":
        return str(int(rng.integers(0, 9))) + str(rng.choice(["", ".", "e3", ".5"]))
    if style == "special":
        return str(rng.choice(["nan", "inf", "-inf", "0", "-0.0", "1e5"]))
    raise ValueError(style)


STYLES = ["int", "float", "exp", "EXP", "short", "special"]


@case(quick=150, thorough=4000)
def statistics_file(rng, env):
    import swiftsimio as sw
    nc = int(rng.integers(1, 12))
    nr = int(rng.choice([0, 1, 2, 3, 17, 60], p=[.05, .15, .2, .3, .2, .1]))
    names = [WORDS[i] for i in rng.permutation(len(WORDS))[:nc]]
    units = [str(rng.choice(UNITS)) for _ in names]
    uniform = rng.random() < 0.4
    colstyle = [str(rng.choice(STYLES)) for _ in names]
    table = [[number(rng, colstyle[j] if uniform or rng.random() < 0.6 else str(rng.choice(STYLES))) for j in range(nc)] for _ in range(nr)]
    lines = ["# Global statistics. Generated by SWIFT", "######", "# "]
    nounit = [rng.random() < 0.2 for _ in names]
    for j, n in enumerate(names):
        lines.append(f"# ({j})  The {n.lower()} of everything{'. Longer explanation.' if rng.random() < 0.4 else ''}")
        if not nounit[j]:
            lines.append(f"#      Unit = {units[j]}{' ' if rng.random() < 0.5 else ''}")
    lines.append("#" + "".join(f"   {'' if rng.random() < 0.9 else '  '}{n}" for n in names) + (" " * 3 if rng.random() < 0.2 else ""))
    body = [str(rng.choice(["  ", " ", "    "])).join([""] * int(rng.integers(0, 2)) + r) for r in table]
    if nr and rng.random() < 0.15:
        body.append("")
    text = "\n".join(lines + body) + ("\n" if rng.random() < 0.9 or not nr else "")
    p = env.path("stats.txt")
    open(p, "w").write(text)
    env.note(names=names, units=units, table=table[:6], rows=nr)
    s = sw.load_statistics(p)
    for j, n in enumerate(names):
        key = n.lower().replace(" ", "_")
        check(hasattr(s, key), f"column {n!r} is missing")
        got = getattr(s, key)
        want = np.array([float(r[j]) for r in table])
        check(len(got) == nr, f"column {n!r}: {len(got)} values instead of {nr}")
        check(np.array_equal(np.asarray(got, dtype=float), want, equal_nan=True), f"column {n!r}: {np.asarray(got)[:8]} instead of {want[:8]}")
        iv = [r[j] for r in table]
        if nr and all(v.lstrip("-").isdigit() for v in iv):
            check([int(v) for v in np.asarray(got)] == [int(v) for v in iv], f"column {n!r}: large integers were rounded")
        u = "dimensionless" if nounit[j] or units[j] == "dimensionless" else units[j]
        wantu = unyt.unyt_quantity(1.0, "dimensionless") if u == "dimensionless" else \
            unyt.unyt_quantity(float(u.split(" ")[0]), u.split(" ")[1] if " " in u else "")
        check(isinstance(got, unyt.unyt_array), f"column {n!r} carries no unit")
        one = unyt.unyt_quantity(1.0, got.units)
        check(one.units.dimensions == wantu.units.dimensions and np.isclose(float((one / wantu).in_base("cgs").value), 1.0, rtol=1e-9),
              f"column {n!r}: unit {got.units} instead of {u}")


@case(quick=150, thorough=4000)
def columns_of_numbers(rng, env):
    f = internal("swiftsimio.accelerated", "list_of_strings_to_arrays", [])
    nc, nr = int(rng.integers(1, 6)), int(rng.integers(1, 12))
    table = [[number(rng, str(rng.choice(STYLES))) for _ in range(nc)] for _ in range(nr)]
    env.note(table=table)
    out = f([str(rng.choice(["  ", " ", "\t"])).join(r) + "\n" for r in table])
    check(len(out) == nc, f"{len(out)} columns instead of {nc}")
    for j in range(nc):
        check(np.array_equal(np.asarray(out[j], float), [float(r[j]) for r in table], equal_nan=True),
              f"column {j}: {np.asarray(out[j])} instead of {[r[j] for r in table]}")
