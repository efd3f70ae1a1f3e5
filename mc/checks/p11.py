"""Parallel loops: every schedule visits exactly the serial elements, each once."""
from ..gen import *
import shutil, os
from ..core import HARNESS

TBB_H = ("tbb/tbb.h", "par.hpp", "noarr/structures/interop/tbb.hpp")
STD_H = ("execution", "par.hpp", "noarr/structures/interop/std_para.hpp")
OMP_H = ("gomp.hpp", "par.hpp", "noarr/structures/interop/omp.hpp")


def shapes(T):
    X = [0, 1, 2, 3, 4, 5, 7, 8]
    Y = [0, 1, 2]
    one = base("x", [X])
    two = base("xy", [[0, 1, 2, 3, 4], Y])
    three = base("xyz", [[1, 3], [1, 2], [2]])
    # (name, structure, order, C++ expression of the top length)
    yield "x", one, "", "p[0]"
    yield "xy", two, "", "p[1]"
    yield "xyz", three, "", "p[2]"
    yield "xy:fix", St(["x", "y"], two.cpp, two.ref, [[1, 2, 3, 4], [1, 2]], None, two.used), "noarr::fix<'y'>(0)", "p[1]"
    O = [("reverse", "noarr::reverse<'x'>()", "p[0]"), ("shift", "noarr::shift<'x'>(p[0] / 2)", "p[0] - p[0] / 2"),
         ("slice", "noarr::slice<'x'>(p[0] / 3, p[0] / 2)", "p[0] / 2"), ("span", "noarr::span<'x'>(p[0] / 3, p[0])", "p[0] - p[0] / 3"),
         ("step", "noarr::step<'x'>(p[0] > 1, 2)", "(p[0] + (p[0] <= 1)) / 2"), ("rename", "noarr::rename<'x', 'r'>()", "p[0]"),
         ("blocks", "noarr::into_blocks<'x', 'b', 'x'>(p[0] % 2 ? 1 : 2)", "p[0] / (p[0] % 2 ? 1 : 2)"),
         ("bstatic", "noarr::into_blocks_dynamic<'x', 'b', 'x', 'd'>(2)", "(p[0] + 1) / 2"),
         ("bcast", "noarr::bcast<'q'>(2)", "2")]
    for n, o, top in O:
        yield "x:" + n, one, o, top
    O2 = [("hoist", "noarr::hoist<'x'>()", "p[1]"), ("hoisty", "noarr::hoist<'y'>()", "p[0]"), ("merge", "noarr::merge_blocks<'x', 'y', 'z'>()", "p[0] * p[1]"),
          ("swap", "noarr::rename<'x', 'y', 'y', 'x'>()", "p[1]"), ("strip", "noarr::strip_mine<'y', 'Y'>(1)", "p[0]"), ("reorder", "noarr::reorder<'y', 'x'>()", "p[0]")]
    for n, o, top in O2:
        yield "xy:" + n, two, o, top


API = {
    "tbb": (TBB_H, "noarr::tbb_for_each(t, f);", "noarr::tbb_for_sections(t, f);"),
    "std": (STD_H, "noarr::std_for_each(t, f);", "noarr::std_for_sections(t, f);"),
    "omp": (OMP_H, "noarr::omp_for_each(t, f);", "noarr::omp_for_sections(t, f);"),
}


def programs(api, T):
    hdr, each, sect = API[api]
    for n, s, o, top in shapes(T):
        # p[] numbering: innermost first
        m = {"x": len(s.dims) - 1}
        fixtop = top
        trav = "noarr::traverser(s)" + (f".order({o})" if o else "")
        doms = s.doms
        pre = f"\tauto s = {s.cpp};\n\tauto t = {trav};\n"
        if s.dims == ["x", "y"]:
            pre = "\tconst ref::u64 pp[] = {p[1], p[0]};\n" + pre  # order/top expressions are written for p[0]=x, p[1]=y
            sub = lambda e: e.replace("p[", "pp[")
            pre = f"\tconst ref::u64 pp[] = {{p[1], p[0]}};\n\tauto s = {s.cpp};\n\tauto t = {'noarr::traverser(s)' + (f'.order({sub(o)})' if o else '')};\n"
        else:
            sub = lambda e: e
        if s.dims == ["x", "y"] and not o:
            top = "p[0]"
        tl = "t.range().size()"
        yield Prog(f"{api}:each:{n}", "", doms, pre + f"\tpar::loop<{q(s.dims)}>(pr, {tl}, [&](auto f) {{ t.for_each(f); }}, [&](auto f) {{ {each} }});", cost=2)
        yield Prog(f"{api}:sect:{n}", "", doms, pre + f"\tpar::sections<{q(s.dims)}>(pr, {tl}, [&](auto g) {{ for (ref::u64 i = 0; i < {tl}; i++) g(t.range()[i]); }}, [&](auto f) {{ {sect} }});", cost=2)


def planner_programs(api, T):
    ex = {"tbb": "noarr::planner_tbb_execute()", "std": "noarr::planner_std_execute()", "omp": "noarr::planner_omp_execute()"}[api]
    for n, s, o, top in shapes(T):
        if n in ("x:bcast", "x:bstatic", "xy:fix"):
            continue
        sub = (lambda e: e.replace("p[", "pp[")) if s.dims == ["x", "y"] else (lambda e: e)
        pre = (f"\t[[maybe_unused]] const ref::u64 pp[] = {{p[{1 if len(s.doms) > 1 else 0}], p[0]}};\n\tauto s = {s.cpp};\n\tstd::vector<char> mem((s | noarr::get_size()) + 8);\n\tauto b = noarr::make_bag(s, mem.data());\n"
               f"\tauto t = {'noarr::traverser(s)' + (f'.order({sub(o)})' if o else '')};\n")
        pl = "noarr::planner(b)" + ".for_each(par::assignable{f})" + (f" ^ {sub(o)}" if o else "")
        yield Prog(f"{api}:plan:{n}", "", s.doms, pre + f"\tpar::loop<{q(s.dims)}>(pr, t.range().size(), [&](auto f) {{ t.for_each(f); }}, [&](auto f) {{ {pl} | {ex}; }});", cost=2)


def split_programs():
    """splitting alone, on ranges far too long to run: every left/right path of 7 splits; the pieces must tile the range"""
    W = [2, 3, 5, 65535, 65537, 4294967296, 4294967299, 8589934595, (1 << 40) + 7, (1 << 61) + 5]
    L = "noarr::scalar<char>() ^ noarr::vector<'x'>(p[0])"
    code = ("\tauto go = [&](auto &self, auto r, std::ptrdiff_t lo, std::ptrdiff_t hi, int depth) -> void {\n\t\tpr.state();\n"
            "\t\tif (!pr.ok(r.begin() - all.begin() == lo && r.end() - all.begin() == hi && r.size() == ref::u64(hi - lo) && r.empty() == (lo == hi) && r.is_divisible() == (hi - lo > 1), \"a split piece is where it should be\", std::to_string(lo) + \"..\" + std::to_string(hi))) return;\n"
            "\t\tif (depth == 0 || !r.is_divisible()) return;\n\t\tdecltype(r) right(r, tbb::split());\n\t\tstd::ptrdiff_t mid = r.end() - all.begin();\n"
            "\t\tif (!pr.ok(lo < mid && mid < hi, \"a split makes two non-empty pieces\", std::to_string(lo) + \"..\" + std::to_string(mid) + \"..\" + std::to_string(hi))) return;\n"
            "\t\tself(self, r, lo, mid, depth - 1);\n\t\tself(self, right, mid, hi, depth - 1);\n\t};\n\tgo(go, all, 0, p[0], 7);")
    yield Prog("tbb:split:traverser", "", [W], f"\tauto s = {L};\n\tconst auto all = noarr::traverser(s).range();\n" + code, cost=3)
    yield Prog("tbb:split:order", "", [W], f"\tauto s = {L} ^ noarr::vector<'y'>(3);\n\tconst auto all = noarr::traverser(s).order(noarr::hoist<'x'>()).range();\n" + code, cost=3)
    yield Prog("tbb:split:planner", "", [W], f"\tauto s = {L};\n\tauto b = noarr::make_bag(s, (void *)nullptr);\n\tauto pl = noarr::planner(b).for_each(par::assignable{{[](auto) {{}}}});\n\tconst auto all = range(pl);\n" + code, cost=3)


SETUP = {
    "tbb": dict(extra=[f"-I{HARNESS}/stub_tbb"], libs=[], fb=dict(extra=["-DVERIF_REAL"], libs=["-ltbb"])),
    "std": dict(extra=[f"-I{HARNESS}/stub_std"], libs=[], fb=dict(extra=["-DVERIF_REAL"], libs=["-ltbb"])),
    "omp": dict(extra=["-fopenmp"], libs=[], compilers=("g++",), fb=dict(extra=["-fopenmp", "-DVERIF_REAL"], libs=["-fopenmp"])),
}


def run(chk, tier):
    T = tier == "thorough"
    chk.assumptions.append("oneTBB, libgomp and the parallel algorithms library are replaced by stand-ins that enumerate every split tree, chunking, thread assignment (up to 3 threads), task order and interleaving of the loop bodies (up to 2 preemptions)")
    jobs = []
    for api in API:
        cfg = SETUP[api]
        jobs.append((list(programs(api, T)) + list(planner_programs(api, T)) + (list(split_programs()) if api == "tbb" else []), API[api][0], cfg))
    chk.explore_many([dict(progs=ps, header=h, extra=c["extra"], libs=c["libs"], compilers=c.get("compilers"), fallback=c["fb"], per_tu=14) for ps, h, c in jobs])
