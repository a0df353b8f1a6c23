"""C10: structure layout is gapless, ordered and byte-rounded."""
from checks.gen_run import *
def main():
    t = [(G, "layout_case", ()), (G, "bytes_case", ()), (G, "enum_width_case", ())] + [(G, "field_case", (x,)) for x in TYPES + [".n.E"]]
    return run("C10", t, ["builder._compute_structure_sizes", "builder._update_field_type_references", "Structure.size_in_bytes", "Field.create/__init__", "BasicType.__init__/width/is_signed", "EnumType"],
               ["any number of structures and fields; field widths at least 1", "DfsTraversal.dependency_order visits every structure (C13)", "Python template output compared by the bounded stand-in"], (60, 900), "schemas built and rendered, generated Python modules loaded")
