"""Bags: ownership histories and element access."""
from ..gen import *
from ..core import Prog
from .p06 import dbase, deferred
import itertools


def hist(T):
    SC = "noarr::scalar<int>()"
    L1 = "[&](auto f) { for (ref::u64 x = 0; x < lx; x++) f(x, noarr::idx<'x'>(x)); }"
    L2 = "[&](auto f) { for (ref::u64 x = 0; x < lx; x++) for (ref::u64 y = 0; y < ly; y++) f(x * ly + y, noarr::idx<'x', 'y'>(x, y)); }"
    def l1(st, cond=""):
        return f"[&](auto f) {{ for (ref::u64 x = 0; x < lx; x++) {cond} f(x, {st}); }}"
    def l2(st, cond=""):
        return f"[&](auto f) {{ for (ref::u64 x = 0; x < lx; x++) for (ref::u64 y = 0; y < ly; y++) {cond} f(x * ly + y, {st}); }}"
    one = [("vec", SC + " ^ noarr::vector<'x'>(lx)", "lx", "lx * 4"), ("arr", SC + " ^ noarr::array<'x', 4>()", "4", "16")]
    v1 = [("rename", "noarr::rename<'x', 'y'>()", l1("noarr::idx<'y'>(x)")), ("reverse", "noarr::reverse<'x'>()", l1("noarr::idx<'x'>(lx - 1 - x)")),
          ("blocks", "noarr::into_blocks<'x', 'b', 'a'>(noarr::lit<1>)", l1("noarr::idx<'b', 'a'>(x, 0)")), ("fix", "noarr::fix<'x'>(lx - 1)", l1("noarr::idx<>()", "if (x == lx - 1)")),
          ("blocksdyn", "noarr::into_blocks<'x', 'b', 'a'>(lx)", l1("noarr::idx<'b', 'a'>(0, x)")), ("bcast", "noarr::bcast<'q'>(2)", l1("noarr::idx<'q', 'x'>(1, x)"))]
    for n, s, cnt, by in one:
        for vn, v, lv in v1:
            yield n + ":" + vn, s, v, L1, lv, cnt, by, [[4]] if n == "arr" else [[1, 2]]
    two = [("rm", SC + " ^ noarr::vector<'y'>(ly) ^ noarr::vector<'x'>(lx)"), ("cm", SC + " ^ noarr::vector<'x'>(lx) ^ noarr::vector<'y'>(ly)"), ("am", SC + " ^ noarr::array<'y', 2>() ^ noarr::vector<'x'>(lx)")]
    v2 = [("hoist", "noarr::hoist<'y'>()", l2("noarr::idx<'x', 'y'>(x, y)")), ("merge", "noarr::merge_blocks<'x', 'y', 'z'>()", l2("noarr::idx<'z'>(x * ly + y)")),
          ("slice", "noarr::slice<'x'>(0, 1)", l2("noarr::idx<'x', 'y'>(x, y)", "if (x == 0)")), ("span", "(noarr::shift<'x'>(lx - 1) ^ noarr::fix<'y'>(1))", l2("noarr::idx<'x'>(0)", "if (x == lx - 1 && y == 1)"))]
    for n, s in two:
        for vn, v, lv in v2:
            yield n + ":" + vn, s, v, L2, lv, "lx * ly", "lx * ly * 4", [[1, 2], [2]]


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    for n, s, v, l, lv, cnt, by, doms in hist(T):
        depth = (5 if n in ("vec:reverse", "rm:merge") else 4) if T else (4 if n in ("vec:blocks", "arr:rename", "rm:merge") else 3)
        ps.append(Prog("history:" + n, "", doms, f"\tref::u64 lx = p[0];\n\t[[maybe_unused]] ref::u64 ly = {'p[1]' if len(doms) > 1 else 0};\n\tbags::histories({s}, {v}, {l}, {lv}, {cnt}, {by}, pr, {depth});", cost=3))
    chk.explore_many([dict(progs=ps, header=("bags.hpp",), per_tu=3, extra=("-DVERIF_BAG_HEAP",), opt="-O1"), dict(progs=access(T) + opened(T), header=("bags.hpp",), per_tu=24)])


LAYOUT = ("vector",)


def access(T):
    ps = []
    bases = [("x", base("x", [[0, 1, 3]])), ("xy", base("xy", [[0, 2, 3], [1, 2]])), ("xyz", base("xyz", [[2], [1, 3], [2]]))]
    for bn, b in bases:
        for n, s in [("", b)] + [(n, s) for n, s in ops_all(b) if n not in LAYOUT]:
            tail = s.cpp[len(b.cpp):]
            D = q(s.dims)
            body = f"""\tstd::vector<int> mem(256);
	auto ub = noarr::make_bag({b.cpp}){tail};
	bags::access<{D}>(ub, ub.data(), pr);
	auto ub2 = noarr::make_bag({s.cpp});
	bags::access<{D}>(ub2, ub2.data(), pr);
	bags::access<{D}>(ub.get_ref(), ub.data(), pr);
	auto rb = noarr::make_bag({b.cpp}, (void *)mem.data()){tail};
	bags::access<{D}>(rb, mem.data(), pr);
	auto rb0 = noarr::make_bag({b.cpp}, (void *)mem.data());
	auto rb1 = rb0{tail};
	bags::access<{D}>(rb1, mem.data(), pr);
	auto cb = noarr::make_bag({b.cpp}, (const void *)mem.data()){tail};
	bags::access<{D}>(cb, mem.data(), pr);
	bags::access<{D}>(noarr::bag(cb.structure(), (void *)mem.data()), mem.data(), pr);
	auto vb = noarr::make_vector_bag({s.cpp});
	bags::access<{D}>(vb, vb.data(), pr);
	auto vm = std::move(vb);
	bags::access<{D}>(vm, vm.data(), pr);
	bags::access<{D}>(vm.get_ref(), vm.data(), pr);
	auto uu = noarr::make_unique_bag({s.cpp});
	bags::access<{D}>(uu, uu.data(), pr);
	auto uc = noarr::bag({s.cpp});
	bags::access<{D}>(uc, uc.data(), pr);
	auto raw = std::make_unique<char[]>(1024);
	void *const at = raw.get();
	auto ua = noarr::bag({s.cpp}, std::move(raw));
	bags::access<{D}>(ua, at, pr);
	bags::access<{D}>(noarr::bag({s.cpp}, (const void *)mem.data()), mem.data(), pr);
	pr.ok((const void *)noarr::bag({s.cpp}, nullptr).data() == nullptr, "a null bag has no data");
	auto nb = noarr::make_bag({s.cpp}, nullptr);
	pr.size(nb.size());
	pr.ok((const void *)nb.data() == nullptr, "a null bag has no data");
	static_assert(std::is_same_v<decltype(cb), std::remove_cvref_t<decltype(cb.get_ref())>>);
	static_assert(std::is_same_v<decltype(rb), std::remove_cvref_t<decltype(rb.get_ref())>>);
	auto el = [](auto &bb) {{ return noarr::make_bag(noarr::scalar<int>(), bb.data()); }};
	pr.ok(!std::is_copy_constructible_v<decltype(ub)> && !std::is_copy_assignable_v<decltype(ub)>, "a unique bag cannot be copied");
	pr.ok(!std::is_copy_constructible_v<decltype(vm)>, "a vector bag cannot be copied");
	pr.ok(std::is_nothrow_move_constructible_v<decltype(ub)>, "a unique bag can be moved");
	pr.ok(std::is_trivially_copyable_v<decltype(rb)> && std::is_trivially_copyable_v<decltype(cb)>, "a reference bag is trivially copyable");
	pr.ok(std::is_same_v<int &, decltype(el(rb)[noarr::idx<>()])> && std::is_same_v<int &, decltype(el(ub)[noarr::idx<>()])>, "elements are writable");
	pr.ok(std::is_same_v<const int &, decltype(el(cb)[noarr::idx<>()])>, "elements of a read-only bag are constant");
	pr.ok(!bags::transformable<decltype(ub) &, noarr::vector_proto<'Q'>> && !bags::transformable<decltype(rb), noarr::vector_proto<'Q'>> && !bags::transformable<decltype(ub), decltype(noarr::vector<'Q'>(2))> && !bags::transformable<decltype(rb) &, decltype(noarr::array<'Q', 2>())>, "layout-changing transformations of bags are rejected");
	pr.ok(!bags::transformable<const decltype(ub) &, noarr::reorder_proto<{D}>> && bags::transformable<decltype(ub), noarr::reorder_proto<{D}>> && bags::transformable<const decltype(rb) &, noarr::reorder_proto<{D}>>, "only references and temporaries can be transformed");"""
            ps.append(Prog(f"access:{bn}:{n}", s.ref, fit(s.doms, 100), body, cost=6, mid=mid(s, 5000)))
    return ps


def opened(T):
    """bags of structures without lengths: everything is obtained with the lengths in the state"""
    ps, seen = [], set()
    for ds, depth in (("x", 0), ("xy", 0), ("xyz", 0), ("x", 1), ("xy", 1)) + ((("xyz", 1), ("xy", 2)) if T else ()):
        for r in range(1, len(ds) + 1):
            for o in itertools.combinations(ds, r):
                b = dbase(ds, set(o))
                for n, s in deferred(b, depth, f"{ds}-{''.join(o)}?"):
                    if not s.open or len(s.dims) > 3 or n in seen:
                        continue
                    seen.add(n)
                    op = sorted(s.open)
                    st = "noarr::make_state<" + ", ".join(f"noarr::length_in<'{d}'>" for d in op) + ">(" + ", ".join(f"std::size_t({s.expr[d]})" for d in op) + ")"
                    body = f"\tstd::vector<int> mem(256);\n\tauto l = {st};\n\tauto rb = noarr::make_bag({s.cpp}, (void *)mem.data());\n\tbags::open_access<{q(s.dims)}>(rb, l, mem.data(), pr);\n"
                    body += f"\tauto cb = noarr::make_bag({s.cpp}, (const void *)mem.data());\n\tbags::open_access<{q(s.dims)}>(cb, l, mem.data(), pr);\n\tbags::open_access<{q(s.dims)}>(rb.get_ref(), l, mem.data(), pr);"
                    ps.append(Prog(f"open:{n}", s.ref, fit(s.doms, 100), body, cost=3))
    return ps
