"""C12: the snapshot writer."""
from checks import writer as W
from checks.p_c08 import groups


def jobs(tier):
    names = [n for n in W.DIMS if n != "particle_ids"]
    return groups("fields", [("required fields", W.tables_job)] + [(f"assignment of {n}", lambda n=n: W.setter_job(n)) for n in names] + [("particle_ids", W.ids_setter_job)], 3, 150) + \
        groups("types", [(f"{f.__name__} {p}", lambda f=f, p=p: f(p)) for f in (W.consistent_job, W.attributes_job) for p in ("PartType0", "PartType1", "PartType4")], 3, 150) + \
        groups("writer", [("_generate_ids", W.ids_job), ("_write_metadata", W.header_job), ("_write_units", W.units_job), ("write", W.write_job), ("__init__", W.ctor_job)], 3, 150)
