"""C17: every periodic image that reaches the picture contributes exactly once.

One arbitrary particle inside the box, one arbitrary integer shift vector, one arbitrary pixel: what the code adds for
that shift (nothing, when its shift loops do not visit it) equals the contribution of that periodic image."""
from checks import deposit as D
from vlib.runner import ProofJob


def images(s, periodic, n):
    def fn():
        _, roles = D.generic_pass(s, None)
        return D.iteration_pass(s, None, roles, periodic, tag=", periodic " + "".join("nP"[p] for p in periodic), shift_spec=True)
    return ProofJob(f"{s.name} [periodic {''.join('nP'[p] for p in periodic[:s.dim])}]", fn, 150, shards=n)


def jobs(tier):
    out = []
    for s in [D.VOLUME_Z, D.VOLUME, D.SLICE] + D.PROJECTIONS:
        d = s.dim
        out.append(images(s, [True] * 3, 4 if s is D.VOLUME_Z else 3 if d == 3 else 1))
    mixed = [[True, False, False], [False, True, False]] + ([[False, False, True], [True, True, False]] if tier == "thorough" else [])
    for s in D.PROJECTIONS + ([D.SLICE, D.VOLUME, D.VOLUME_Z] if tier == "thorough" else []):
        for m in mixed:
            if s.dim == 2 and m[2]:
                continue
            if tier == "quick" and s.name in ("subsampled_extreme", "reference"):
                continue
            out.append(images(s, m, 1 if s.dim == 2 else 2))
    return out
