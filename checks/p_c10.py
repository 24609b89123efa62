"""C10: reading of fields."""
from checks import reading as R
from checks.p_c08 import groups


def jobs(tier):
    return groups("getter of a field", [(f"getter {n} {m} {k}", lambda n=n, m=m, k=k: R.getter_job(n, m, k)) for n in (1, 2) for m in (False, True)
                                        for k in (False, True) if n == 2 or not k], 3, 90) + \
        groups("setter, deleter, group attributes, attribute readers",
               [("setter, deleter", R.access_job), ("group attributes", R.group_attr_job), ("load_field_units", R.units_job), ("attribute readers", R.attrs_job)], 4, 90)
