"""C19 at run time: rotation matrices."""
import numpy as np
import unyt

from vlib.execlib import case, check, internal

AX = {"x": 0, "y": 1, "z": 2}


def draw_vector(rng):
    kind = str(rng.choice(["random", "axis", "opposite", "near", "near_opposite", "plane", "integer", "f4", "long", "short", "units"]))
    v = rng.normal(size=3)
    j = int(rng.integers(0, 3))
    if kind in ("axis", "opposite", "near", "near_opposite"):
        v = np.zeros(3)
        v[j] = 1.0 if kind in ("axis", "near") else -1.0
        if kind.startswith("near"):
            v = v + rng.normal(size=3) * 10.0 ** rng.uniform(-9, -1)
        v = v * 10.0 ** rng.uniform(-3, 3)
    if kind == "plane":
        v[j] = 0.0
    if kind == "integer":
        v = rng.integers(-3, 4, 3)
        if not v.any():
            v[j] = 1
    if kind == "f4":
        if rng.random() < 0.5:
            v = np.eye(3)[j] + rng.normal(size=3) * 10.0 ** rng.uniform(-5, -1)
        v = (v * 10.0 ** rng.uniform(-25, 25)).astype("f4")
    if kind == "long":
        v = v * 1e180
    if kind == "short":
        v = v * 1e-180
    return kind, v


@case(quick=250, thorough=20000)
def proper_rotation(rng, env):
    f = internal("swiftsimio.visualisation.rotation", "rotation_matrix_from_vector")
    kind, v = draw_vector(rng)
    axis = str(rng.choice(list(AX)))
    env.note(kind=kind, vector=v, axis=axis)
    before = v.copy()
    arg = v
    if kind == "units":
        import swiftsimio as sw
        arg = unyt.unyt_array(v, "km") if rng.random() < 0.5 else sw.cosmo_array(v, "kpc", comoving=True, scale_factor=0.5, scale_exponent=1)
        before = arg.copy()
    R = f(arg, axis=axis) if rng.random() < 0.8 or axis != "z" else f(arg)
    check(np.array_equal(np.asarray(arg), np.asarray(before)), "the vector passed in was modified")
    R = np.asarray(R, float)
    check(R.shape == (3, 3), f"shape {R.shape}")
    check(np.abs(R @ R.T - np.eye(3)).max() < 1e-10, f"not orthogonal: R R^T - 1 = {np.abs(R @ R.T - np.eye(3)).max()}")
    check(abs(np.linalg.det(R) - 1) < 1e-9, f"determinant {np.linalg.det(R)}")
    d = np.asarray(v, dtype=float)
    d = d / np.abs(d).max()
    d = d / np.linalg.norm(d)
    out = R @ d
    want = np.eye(3)[AX[axis]]
    # directions within 1e-6 of the axis are treated as being along it
    check(np.abs(out - want).max() < 3e-6, f"the vector is mapped onto {out}, not onto the {axis} axis")


@case(quick=3, thorough=3)
def bad_axis(rng, env):
    f = internal("swiftsimio.visualisation.rotation", "rotation_matrix_from_vector")
    env.note(k=env.k)
    try:
        f(np.array([1.0, 2.0, 3.0]), axis=["w", "X", 0][env.k % 3])
    except (ValueError, KeyError, TypeError):
        return
    check(False, "an unknown axis was accepted")
