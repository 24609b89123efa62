"""C22: metadata."""
from checks import handles, headers as H
from checks.p_c08 import groups


def jobs(tier):
    return groups("metadata", [("postprocess_header", H.header_job), ("present_groups", H.groups_job), ("field names", H.field_names_job),
                               ("name tables", H.tables_job), ("_convert_snake_to_camel", H.convert_job), ("_metadata_discriminator", handles.discriminator_job)], 2, 200)
