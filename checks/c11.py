"""C11: constants and widths are accepted exactly when they fit."""
from checks.gen_run import *
def main():
    t = [(G, f, (x,)) for f in ("type_case", "bits_case", "constant_case", "field_case") for x in TYPES] + [(G, "field_case", (".n.E",)), (G, "enum_width_case", ()), (G, "const_refs_case", ()), (G, "field_decorations_case", ())] \
        + [(G, "enum_case", (x,)) for x in TYPES]
    return run("C11", t, ["BasicType.__init__/bits_required", "Constant.create/__init__", "Field.create/__init__", "Enumeration.create", "EnumType", "builder._update_field_type_references", "builder._check_const_refs"],
               ["numbers are unbounded integers up to 2^139", "int(text, 0) is the number an integer literal denotes"], (4000, 40000), "schemas with widths and constants around every limit")
