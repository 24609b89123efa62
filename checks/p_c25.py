"""C25: the astropy cosmology."""
from checks import cosmology as C
from checks.p_c08 import groups


def jobs(tier):
    return groups("conversion of the parameters", [("swift_cosmology_to_astropy", C.conversion_job), ("extract_cosmology", C.extract_job)], 2, 120) + \
        groups("swift_neutrinos_to_astropy", [(f"{k} species", lambda k=k: C.neutrinos_job(k)) for k in range(4)], 4, 120)
