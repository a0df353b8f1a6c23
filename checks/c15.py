"""C15: reference limits, ranges and multivector indices are sound."""
from checks.gen_run import *
def main():
    t = [(G, x + "_case", ()) for x in ("max_size", "ranges", "has_range", "explicit", "const_refs", "field_decorations")]
    return run("C15", t, ["builder._compute_max_resource_size", "builder._check_ranges", "builder._check_explicit_references", "builder._check_const_refs", "Structure.has_range", "Field.create (decorations)"],
               ["any number of references, fields, resources and structures"], (3000, 25000), "archives with explicit references, ranges and invalid values")
