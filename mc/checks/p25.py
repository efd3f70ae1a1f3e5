"""The name of a dimension is only a label: programs of the other properties with their dimensions renamed to characters and
dim<> objects that are easily confused (equal values of different types, empty tags, class-type tags)."""
import importlib, re
from ..core import Prog

# module, number of transformations below which its programs are taken, which of them (thorough: all of the modules' quick programs)
SRC = [("p01", 1, r"int:|aos|tup"), ("p02", 2, r"[^^]*$|x:|.*(rename|hoist|join|reorder|swap|bcast)"), ("p03", 2, r"[^^]*$|x:"), ("p06", 2, ""), ("p07", 2, r"[^^]*$|x:|.*(rename|hoist|join|reorder|swap)"), ("p08", 1, ""),
       ("p09", 1, r"(?!one)"), ("p10", 1, ""), ("p13", 1, ""), ("p14", 1, ""), ("p18", 1, r"(?!like:xyz)"), ("p22", 1, ""), ("p23", 1, ""), ("p24", 2, r"[^^]*$|tupleC")]


class Capture:
    """stands in for a Check: collects what a module would explore"""
    def __init__(self):
        self.jobs, self.assumptions = [], []

    def explore(self, progs, **kw):
        self.jobs.append(dict(progs=list(progs), **kw))

    def explore_many(self, jobs):
        self.jobs += jobs


def renamed(p, mod):
    t = lambda s: re.sub(r"(?<!pr, )(?<!\", )(?<!\[)(?<!\{)(?<!erase\()(?<!count\()(?<!at\()'([A-Za-z])'", r"D_\1", s)  # not where the harness wants the letter itself
    return Prog(f"{mod}:{p.id}", p.ref, p.doms, t(p.body), p.wide, p.cost, t(p.pre) if p.pre else p.pre)


def run(chk, tier):
    T = tier == "thorough"
    jobs = []
    for mod, depth, rx in SRC:
        cap = Capture()
        importlib.import_module("mc.checks." + mod).run(cap, "quick")
        for j in cap.jobs:
            ps = [renamed(p, mod) for p in j["progs"] if re.match(rx, p.id) and (T or p.id.count("^") < depth)]
            jobs.append(dict(j, progs=ps, header=("names.hpp",) + tuple(j.get("header", ("probes.hpp",)))))
    chk.explore_many(jobs)
