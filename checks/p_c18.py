"""C18: what is handed to the backends, and what is left alone."""
from checks import pictures as P
from vlib.runner import ProofJob


def jobs(tier):
    out = [ProofJob("_get_region_info", P.region_job, 240), ProofJob("_get_rotated_and_wrapped_coordinates", P.coordinates_job, 120),
           ProofJob("backend_strip_and_restore_cosmo_and_units", P.wrapper_job, 200), ProofJob("_get_projection_field", P.field_job, 90),
           ProofJob("project_gas, slice_gas, render_gas", P.delegation_job, 120), ProofJob("backends_get_hsml", P.hsml_job, 90),
           ProofJob("render_to_deposit", P.deposit_job, 200)]

    def picture(what, periodic, **kw):
        text = ", ".join([what, "periodic" if periodic else "not periodic"] + [f"{k}={v}" for k, v in kw.items()])
        out.append(ProofJob("picture [" + text + "]", lambda: P.picture_job(what, periodic, **kw), 400))
    for periodic in (True, False):
        for z in (True, False):
            picture("project", periodic, zregion=z)
            picture("project", periodic, zregion=z, masked=True)
        picture("project", periodic, rotate=True)
        picture("project", periodic, zregion=True, rotate=True, masked=True)
        picture("project", periodic, parallel=True, backend="histogram", masked=True)
        picture("slice", periodic)
        picture("slice", periodic, masked=True, parallel=True)
        picture("slice", periodic, rotate=True)
        picture("slice", periodic, backend="nearest_neighbours", masked=True)
        picture("render", periodic)
        picture("render", periodic, masked=True, parallel=True)
        picture("render", periodic, rotate=True)
    return out
