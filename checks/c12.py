"""C12: enumerations assign unique values and cover their range."""
from checks.gen_run import *
def main():
    t = [(G, f, (x,)) for f in ("type_case", "bits_case", "range_case", "enum_case") for x in TYPES]
    return run("C12", t, ["Enumeration.create", "Enumeration.__init__", "BasicType.bits_required/value_range"],
               ["any number of declared values, each explicit or not", "int(text, 0) is the number an integer literal denotes"], (2500, 20000), "enumerations of all types and widths up to 11 bits")
