"""C05: the builder refuses duplicate, unknown or malformed data."""
from checks import common as C, c03
def main():
    m = "checks.builder_drv"
    t = [(m, "reject_case", (c, f)) for c in ("instance", "vector", "multivector") for f in ("missing field", "extra field", "unknown structure", "both") if c == "multivector" or f != "unknown structure"]
    t += [(m, "unknown_case", ())]
    return c03.run("C05", t, ["archive_builder.ArchiveBuilder.set", "archive_builder.ArchiveBuilder.__validate_structure_fields", "archive_builder.ArchiveBuilder.__set_*"],
                   ["records are dicts (or have keys() and 'in' with dict meaning)", "unknown resource and structure names are tried for a list of representative strings, not a symbolic string"], rounds=(12, 150))
