"""C11: files and handles."""
from checks import handles as H
from checks import reading as R
from checks.p_c08 import groups


def jobs(tier):
    fns = [("HandleProvider.__init__", H.init_job), ("HandleProvider.handle", H.handle_job), ("HandleProvider._close_handle_if_manager", H.close_job),
           ("HandleProvider.open_file", H.open_file_job), ("split_path_or_handle", H.split_job), ("open_path_or_handle", H.open_path_job),
           ("frame", H.openers_job)]
    out = groups("HandleProvider, open_path_or_handle", fns, 7, 90)
    out += groups("entry points and what opens files", [(n, lambda n=n: H.entry_job(n)) for n in ("load", "mask", "validate_file")] +
                  [("_metadata_discriminator", H.discriminator_job), ("SWIFTLineOfSightMetadata.present_groups", H.los_groups_job),
                   ("write_subset", H.subset_job)] + [(f"SWIFTDataset.{w}", lambda w=w: H.dataset_job(w)) for w in ("get_units", "get_metadata", "create_datasets")],
                  5, 90)
    out += groups("constructors", [(n, lambda n=n: H.constructor_job(n)) for n in H.CTORS], 5, 90)
    out += groups("reading of fields", [(f"getter {n} {m} {k}", lambda n=n, m=m, k=k: R.getter_job(n, m, k)) for n, m, k in
                                        ((1, False, False), (2, True, False), (2, False, True))] + [("group attributes", R.group_attr_job)], 4, 90)
    return out
