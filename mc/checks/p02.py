from ..gen import *

def run(chk, tier):
    ps = []
    one = base("x", [[0, 1, 2, 3, 5]])
    two = base("xy", [[0, 1, 2, 3], [1, 2, 3]])
    three = base("xyz", [[1, 2, 3], [1, 2], [2, 3]])
    for bn, b, depth in (("x", one, 1), ("xy", two, 1), ("xyz", three, 1), ("xy", two, 2), ("x", one, 2)):
        for n, s in chains(b, [ops_views] * depth):
            ps.append(prog(f"{bn}:{n}", s))
    chk.explore(ps, per_tu=40)
