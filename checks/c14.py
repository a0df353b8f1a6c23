"""C14: names resolve to the nearest enclosing definition."""
from checks.gen_run import *
def main():
    import checks.names_drv as D
    t = [(N, "find_case", (x,)) for x in ("find", "find_last", "get_relative", "find_relative", "get")] + [(N, x + "_case", ()) for x in ("insert", "path", "reference", "scope", "namespace", "absolute", "merge")] \
        + [(N, "resolve_case", (k,)) for k in D.EXPECT]
    return run("C14", t, ["Node.find/find_last/find_relative/get/get_relative/insert/path/first_parent_like", "Reference.__init__/target/is_qualified/update_reference/set_name", "resolver.resolve_references/_validate_target_type",
                          "resolver._resolve_in_parent_scope/_resolve_in_parent_namespace/_resolve_as_fully_qualified_reference", "builder._merge_roots"],
               ["names contain neither '.' nor '@' (grammar)", "_innermost_namespace and _ensure_namespace return the namespace of the block's path (bounded)"], (4000, 40000), "schemas with shadowed, qualified, missing and duplicate names")
