"""C13: every definition is emitted after what it depends on."""
from checks.gen_run import *
def main():
    t = [(G, "dfs_case", ("dependency_order",)), (G, "dfs_case", ("iterate",))]
    return run("C13", t, ["DfsTraversal._iterate", "DfsTraversal.dependency_order", "DfsTraversal.iterate"],
               ["arbitrary finite or infinite graphs of nodes; termination is not proved", "_Traversal.children lists the child nodes and the nodes referred to (bounded)",
                "templates emit in the order they are given (bounded: Python and C++ output searched for definitions)"], (60, 900), "schemas with definitions in shuffled order, with and without cycles")
