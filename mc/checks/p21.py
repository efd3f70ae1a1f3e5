"""Device threads partition the traversal."""
from ..gen import *
from ..core import Prog, HARNESS
from .p07 import reduced
from .p08 import split
import itertools

EX = (f"-I{HARNESS}/stub_cuda",)


def threads(name, b, t, dims):
    """dims: (grid, block) pairs"""
    o = split(b, t) if t.cpp != b.cpp else ""
    fl = [d for p in dims for d in p]
    g = ", ".join(f"uint(pr.r->len['{p[0]}'])" for p in dims)
    k = ", ".join(f"uint(pr.r->len['{p[1]}'])" for p in dims)
    c = f"\tauto s = {b.cpp};\n\tauto t = noarr::cuda_threads<{q(fl)}>(noarr::traverser(s){'.order(' + o + ')' if o else ''});\n"
    c += f"\tconst dim3 g{{{g}}}, k{{{k}}};\n\tauto gg = t.grid_dim(), kk = t.block_dim();\n"
    for x in "xyz":
        c += f"\tpr.eq(gg.{x}, g.{x}, \"grid size {x}\");\n\tpr.eq(kk.{x}, k.{x}, \"block size {x}\");\n"
    c += "\tbool some = true;\n" + "".join(f"\tsome = some && pr.r->len['{d}'];\n" for d in fl)
    c += "\tpr.eq(bool(t), some, \"there are threads to run\");\n\tcud::Tally y(pr);\n"
    c += f"\tdev::launch(gg, kk, [&] {{ y.thread(s, t.inner()); y.part(s, t.inner(), s{' ^ ' + o if o else ''} ^ t.get_fixes()); }});\n\ty.done(\"cuda_threads\");"
    return Prog(name, t.ref, fit(t.doms, 150), c, cost=3, mid=mid(t, 2000))


def stepped(name, b, t, d, T):
    """all ways to divide dimension d ('' = outermost) among the threads of a group"""
    o = split(b, t) if t.cpp != b.cpp else ""
    a = f"<'{d}'>" if d else ""
    ac = lambda c: f"<'{d}', {c}>" if d else f"<{c}>"
    pre = o + " ^ " if o else ""
    c = f"\tauto s = {b.cpp};\n"
    c += f"\tfor (ref::u64 n : {{1, 2, 3, 4, 7}}) {{\n\t\tcud::Tally y(pr);\n\t\tfor (ref::u64 r = 0; r < n; r++) y.thread(s, noarr::traverser(s).order({pre}noarr::cuda_step{a}(cud::Group{{r, n}})));\n\t\ty.done(\"cuda_step of a group\");\n\t}}\n"
    L = "{dim3{1, 1, 1}, dim3{2, 1, 1}, dim3{3, 2, 1}, dim3{1, 2, 2}, dim3{5, 1, 1}}"
    c += f"\tfor (dim3 k : {L}) {{\n"
    for e in (f"noarr::cuda_step_block{a}()", f"noarr::cuda_step{ac('cooperative_groups::thread_block')}()", f"noarr::cuda_step{a}(cooperative_groups::thread_block())"):
        c += f"\t\t{{ cud::Tally y(pr); dev::launch({{1, 1, 1}}, k, [&] {{ y.thread(s, noarr::traverser(s).order({pre}{e})); }}); y.done(\"cuda_step in a block\"); }}\n"
    c += f"\t\tfor (dim3 g : {L}) {{\n"
    for e in (f"noarr::cuda_step_grid{a}()", f"noarr::cuda_step{ac('cooperative_groups::grid_group')}()"):
        c += f"\t\t\t{{ cud::Tally y(pr); dev::launch(g, k, [&] {{ y.thread(s, noarr::traverser(s).order({pre}{e})); }}); y.done(\"cuda_step in a grid\"); }}\n"
    # blocks take one part each, threads of a block divide it
    c += "\t\t}\n\t}\n"
    return Prog(name, t.ref, fit(t.doms, 60 if not T else 200), c, cost=8, mid=mid(t, 1000))


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[0, 1, 2, 3, 4, 6, 8]])
    two = base("xy", [[0, 1, 2, 3], [1, 2, 4]])
    three = base("xyz", [[0, 1, 2, 3], [1, 2], [2, 3]])
    four = base("wxyz", [[1, 2], [2, 3], [1, 3], [1, 2]])
    six = base("abcdef", [[1, 2], [1, 3], [2], [1, 2], [2, 1], [2]])
    seven = base("abcdefg", [[1, 2], [1, 2], [1], [2], [2], [1, 3], [1, 2]])
    for bn, b in (("xy", two), ("xyz", three), ("wxyz", four)):
        for p in itertools.permutations(b.dims, 2):
            ps.append(threads(f"threads1:{bn}:{''.join(p)}", b, b, [p]))
    for p in itertools.permutations("wxyz"):
        ps.append(threads(f"threads2:{''.join(p)}", four, four, [p[:2], p[2:]]))
    for p in (list(itertools.permutations("abcdef")) if T else list(itertools.permutations("abcdef"))[::29]):
        ps.append(threads(f"threads3:{''.join(p)}", six, six, [p[:2], p[2:4], p[4:]]))
    for p in list(itertools.permutations("abcdefg", 6))[::(17 if T else 400)]:
        ps.append(threads(f"threads3g:{''.join(p)}", seven, seven, [p[:2], p[2:4], p[4:]]))
    for bn, b in (("x", one), ("xy", two)) + ((("xyz", three),) if T else ()):
        for n, t in reduced(b):
            if n.startswith(("vector", "bcast")):
                continue
            for p in itertools.permutations(t.dims, 2):
                ps.append(threads(f"threads:{bn}:{n}:{''.join(p)}", b, t, [p]))
    for bn, b in (("x", one), ("xy", two), ("xyz", three)):
        ps.append(stepped(f"step:{bn}", b, b, "", T))
        for d in b.dims:
            ps.append(stepped(f"step:{bn}:{d}", b, b, d, T))
    for bn, b in (("x", one), ("xy", two)):
        for n, t in reduced(b):
            if n.startswith(("vector", "bcast")) or not t.dims:
                continue
            ps.append(stepped(f"step:{bn}:{n}", b, t, "", T))
            if T or bn == "x":
                for d in t.dims:
                    ps.append(stepped(f"step:{bn}:{n}:{d}", b, t, d, T))
            # grid over blocks, threads of the block step inside
            if len(t.dims) > 1 and (T or bn == "x"):
                pass
    # launches too large to run: the threads at the corners of the launch, and the launch dimensions
    wb = "noarr::scalar<char>() ^ noarr::vectors<'z', 'y', 'x'>(std::size_t(3), p[1], p[0])"
    for o, zi in (("", "0"), ("noarr::hoist<'z'>()", "0"), ("noarr::shift<'z'>(1)", "1"), ("noarr::reverse<'z'>()", "2"), ("noarr::fix<'z'>(2)", "2")):
        c = f"\tauto s = {wb};\n\tauto t = noarr::cuda_threads<'x', 'y'>(noarr::traverser(s){'.order(' + o + ')' if o else ''});\n"
        c += "\tpr.eq(t.grid_dim().x, p[0], \"grid size x\");\n\tpr.eq(t.block_dim().x, p[1], \"block size x\");\n\tpr.eq(bool(t), true, \"there are threads to run\");\n"
        c += f"""\tgridDim = t.grid_dim(), blockDim = t.block_dim();
	for (ref::u64 b : {{ref::u64(0), p[0] / 2, p[0] - 1}}) for (ref::u64 k : {{ref::u64(0), p[1] / 2, p[1] - 1}}) {{
		blockIdx = {{uint(b), 0, 0}}, threadIdx = {{uint(k), 0, 0}};
		ref::u64 first = ~ref::u64(0);
		t.inner().for_each([&](auto st) {{ if (first + 1 == 0) first = s | noarr::offset(st); }});
		pr.state();
		pr.eq(first, (b * p[1] + k) * 3 + {zi}, "first element of a thread in a large launch");
	}}
	threadIdx = blockIdx = {{0, 0, 0}};"""
        ps.append(Prog(f"wide:{o}", "", [[1, 2147483647, 4194305], [1, 1024, 1000]], c))
    for n, o, ks, ex in (("blocks", "noarr::into_blocks<'x', 'X', 'x'>(p[1])", [1024, 1000], "b * p[1] + k"), ("blocks-lit", "noarr::into_blocks<'x', 'X', 'x'>(noarr::lit<1024>)", [1024], "b * 1024 + k"),
                         ("rev-blocks", "noarr::reverse<'x'>() ^ noarr::into_blocks<'x', 'X', 'x'>(p[1])", [1000], "p[0] * p[1] - 1 - (b * p[1] + k)"), ("step-blocks", "noarr::step<'x'>(std::size_t(1), std::size_t(2)) ^ noarr::into_blocks<'x', 'X', 'x'>(p[1] / 2)", [1024], "(b * (p[1] / 2) + k) * 2 + 1"),
                         ("blocks-shift", "noarr::into_blocks<'x', 'X', 'x'>(p[1]) ^ noarr::shift<'X'>(std::size_t(1))", [1000], "(b + 1) * p[1] + k"), ("dyn", "noarr::into_blocks_dynamic<'x', 'X', 'x', 'p'>(p[1])", [1024, 1000], "b * p[1] + k")):
        c = f"\tauto s = noarr::scalar<char>() ^ noarr::vector<'x'>(p[0] * p[1]);\n\tauto t = noarr::cuda_threads<'X', 'x'>(noarr::traverser(s).order({o}));\n"
        c += f"""\tgridDim = t.grid_dim(), blockDim = t.block_dim();
	for (ref::u64 b : {{ref::u64(0), ref::u64(gridDim.x / 2), ref::u64(gridDim.x - 1)}}) for (ref::u64 k : {{ref::u64(0), ref::u64(blockDim.x / 2), ref::u64(blockDim.x - 1)}}) {{
		blockIdx = {{uint(b), 0, 0}}, threadIdx = {{uint(k), 0, 0}};
		ref::u64 got = ~ref::u64(0), cnt = 0;
		t.inner().for_each([&](auto st) {{ got = s | noarr::offset(st), cnt++; }});
		pr.state();
		pr.eq(got, {ex}, "element of a thread in a large launch");
		pr.eq(cnt, 1, "elements of a thread in a large launch");
	}}
	pr.eq(gridDim.x, p[0]{' - 1' if n == 'blocks-shift' else ''}, "grid size x");
	threadIdx = blockIdx = {{0, 0, 0}};"""
        ps.append(Prog(f"wide:{n}", "", [[2147483647, 4194305, 8388608], ks], c))
    c = "\tauto s = noarr::scalar<char>() ^ noarr::vectors<'f', 'e', 'd', 'c', 'b', 'a'>(p[5], p[4], p[3], p[2], p[1], p[0]);\n\tauto t = noarr::cuda_threads<'a', 'b', 'c', 'd', 'e', 'f'>(noarr::traverser(s));\n"
    c += "".join(f"\tpr.eq(t.{g}_dim().{x}, p[{2 * i + j}], \"{g} size {x}\");\n" for i, x in enumerate("xyz") for j, g in enumerate(("grid", "block")))
    c += "\tpr.eq(bool(t), p[0] && p[1] && p[2] && p[3] && p[4] && p[5], \"there are threads to run\");"
    ps.append(Prog("wide6", "", [[0, 1, 1 << 30], [0, 16], [0, 1 << 14], [0, 8], [0, 1 << 14], [0, 8]], c))
    # launch over two dimensions, the threads of each block additionally divide a third one
    for p in itertools.permutations("xyz"):
        c = f"\tauto s = {three.cpp};\n\tauto t = noarr::cuda_threads<'{p[0]}', '{p[1]}'>(noarr::traverser(s));\n\tcud::Tally y(pr);\n"
        c += f"\tfor (ref::u64 n : {{1, 2, 3}}) {{ cud::Tally y(pr); for (ref::u64 r = 0; r < n; r++) dev::launch(t.grid_dim(), t.block_dim(), [&] {{ y.thread(s, t.inner().order(noarr::cuda_step<'{p[2]}'>(cud::Group{{r, n}}))); }}); y.done(\"cuda_threads with cuda_step inside\"); }}"
        ps.append(Prog(f"nested:{''.join(p)}", three.ref, three.doms, c, cost=3))
    chk.explore(ps, header=("cuda.hpp",), per_tu=40, extra=EX)
