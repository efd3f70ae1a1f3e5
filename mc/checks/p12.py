"""Parallel reduction equals the serial reduction under every schedule; no two concurrent tasks touch the same element."""
from ..gen import *
from .p11 import SETUP, TBB_H

SC = "noarr::scalar<ref::u64>()"
NUM = {"x": "noarr::get_index<'x'>(st)", "xy": "noarr::get_index<'x'>(st) * 3 + noarr::get_index<'y'>(st)",
       "xyz": "(noarr::get_index<'x'>(st) * 2 + noarr::get_index<'y'>(st)) * 2 + noarr::get_index<'z'>(st)"}


def cases(T):
    ins = [("x", base("x", [[0, 1, 2, 3, 4, 5] + ([7, 8, 11, 16] if T else [8])]), ["", "noarr::reverse<'x'>()", "noarr::into_blocks<'x', 'b', 'x'>(1)", "noarr::into_blocks_dynamic<'x', 'b', 'x', 'd'>(2)",
                                                        "noarr::slice<'x'>(lx / 3, lx / 2)", "noarr::step<'x'>(0, 2)", "noarr::shift<'x'>(lx / 2)"]),
           ("xy", base("xy", [[0, 1, 2, 3] + ([4] if T else []), [1, 2, 3] if T else [1, 2]]), ["", "noarr::hoist<'y'>()", "noarr::merge_blocks<'x', 'y', 'z'>()", "noarr::into_blocks<'y', 'b', 'y'>(1) ^ noarr::hoist<'b'>()",
                                                       "noarr::reverse<'x'>()", "noarr::fix<'y'>(0)", "noarr::fix<'x'>(lx - 1)", "noarr::rename<'x', 'q'>()", "noarr::rename<'x', 'y', 'y', 'x'>()",
                                                       "noarr::merge_blocks<'x', 'y', 'y'>()", "noarr::merge_blocks<'x', 'y', 'x'>()", "noarr::strip_mine<'y', 'Y'>(1)"]),
           ("xyz", base("xyz", [[1, 3], [1, 2], [2]]), ["", "noarr::hoist<'y'>()", "noarr::reorder<'z', 'y', 'x'>()"])]
    outs = [("scal", "", SC, "noarr::idx<>()"), ("x", "x", SC + " ^ noarr::vector<'x'>(lx)", "st"), ("y", "y", SC + " ^ noarr::vector<'y'>(ly)", "st"),
            ("xy", "xy", SC + " ^ noarr::vector<'y'>(ly) ^ noarr::vector<'x'>(lx)", "st"), ("yx", "xy", SC + " ^ noarr::vector<'x'>(lx) ^ noarr::vector<'y'>(ly)", "st"),
            ("zx", "xz", SC + " ^ noarr::vector<'x'>(lx) ^ noarr::vector<'z'>(lz)", "st"), ("z", "z", SC + " ^ noarr::vector<'z'>(lz)", "st"),
            ("hist", "", SC + " ^ noarr::array<'v', 3>()", "noarr::idx<'v'>((NUM) % 3)"), ("histmv", "", SC + " ^ noarr::array<'u', 2>() ^ noarr::array<'v', 3>()", "noarr::idx<'v', 'u'>((NUM) % 3, (NUM) % 2)"),
            ("tup0", "x", f"noarr::pack({SC} ^ noarr::vector<'x'>(lx), {SC}) ^ noarr::tuple<'t'>()", "(st & noarr::idx<'t'>(noarr::lit<0>))"),
            ("tup1", "", f"noarr::pack({SC}, {SC} ^ noarr::array<'v', 3>()) ^ noarr::tuple<'t'>()", "noarr::idx<'t', 'v'>(noarr::lit<1>, (NUM) % 3)"),
            ("tupmix", "x", f"noarr::pack({SC} ^ noarr::vector<'x'>(lx), {SC}) ^ noarr::tuple<'t'>()", "noarr::idx<'t'>(noarr::lit<1>)"),
            ("tupmix0", "x", f"noarr::pack({SC} ^ noarr::array<'v', 3>(), {SC} ^ noarr::vector<'x'>(lx)) ^ noarr::tuple<'t'>()", "noarr::idx<'t', 'v'>(noarr::lit<0>, (NUM) % 3)"),
            ("tupy", "xy", f"noarr::pack({SC} ^ noarr::vector<'y'>(ly), {SC} ^ noarr::vector<'y'>(ly) ^ noarr::vector<'x'>(lx)) ^ noarr::tuple<'t'>()", "(st & noarr::idx<'t'>(noarr::lit<0>))"),
            ("aos", "x", f"noarr::pack({SC}, {SC}) ^ noarr::tuple<'t'>() ^ noarr::vector<'x'>(lx)", "(st & noarr::idx<'t'>(noarr::lit<1>))"),
            ("bx", "x", SC + " ^ noarr::vector<'x'>(lx + lx % 2) ^ noarr::into_blocks<'x', 'X', 'x'>(2)", "noarr::idx<'X', 'x'>(noarr::get_index<'x'>(st) / 2, noarr::get_index<'x'>(st) % 2)")]
    for inn, s, orders in ins:
        for o in orders:
            for on, need, oc, key in outs:
                if not set(need) <= set(inn):
                    continue
                yield inn, s, o, on, oc, key.replace("NUM", NUM[inn])


def programs(T):
    for inn, s, o, on, oc, key in cases(T):
        # parameters are numbered innermost first
        n = len(s.dims)
        lens = "".join(f"\t[[maybe_unused]] const std::size_t l{d} = p[{n - 1 - i}];\n" for i, d in enumerate(s.dims))
        tag = o.replace("noarr::", "")
        doms = s.doms
        if "lx - 1" in o:
            doms = [d if i != n - 1 else [v for v in d if v] for i, d in enumerate(doms)]
        pre = lens + f"\tauto s = {s.cpp};\n\tauto t = noarr::traverser(s)" + (f".order({o})" if o else "") + f";\n\tauto out = {oc};\n"
        common = f"t.range().size(), [&](auto st) {{ return ref::u64({NUM[inn]}); }}, [&](auto st) {{ return {key}; }}, "
        yield Prog(f"bag:{inn}[{tag}]->{on}", "", doms, pre + f"\tpar::reduce(pr, t, out, {common}[&](auto neut, auto acc, auto join, auto b) {{ noarr::tbb_reduce(t, neut, acc, join, b); }});", cost=2)
        if on in ("scal", "x", "y", "yx", "hist"):
            yield Prog(f"raw:{inn}[{tag}]->{on}", "", doms, pre + f"\tpar::reduce(pr, t, out, {common}[&](auto neut, auto acc, auto join, auto b) {{\n"
                       "\t\tnoarr::tbb_reduce(t, [&](auto st, void *l) { neut(st, noarr::make_bag(out, (char *)l)); }, [&](auto st, void *l) { acc(st, noarr::make_bag(out, (char *)l)); },\n"
                       "\t\t\t[&](auto st, void *l, const void *r) { join(st, noarr::make_bag(out, (char *)l), noarr::make_bag(out, (const char *)r)); }, out, b.data());\n\t});", cost=2)


def run(chk, tier):
    T = tier == "thorough"
    c = SETUP["tbb"]
    chk.assumptions.append("oneTBB is replaced by a stand-in that enumerates every split tree, thread assignment (up to 3 threads), task order, interleaving at a point between the read and the write of each accumulation (up to 2 preemptions) and order of combination; two accumulations of one element by different threads are a race")
    chk.explore_many([dict(progs=list(programs(T)), header=TBB_H, extra=c["extra"], libs=c["libs"], fallback=c["fb"], per_tu=14)])
