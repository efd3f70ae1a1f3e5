"""Striped layouts for banked memory."""
from ..gen import *
from ..core import Prog, HARNESS

EX = (f"-I{HARNESS}/stub_cuda",)


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    NS = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 31, 32, 33, 40] if not T else list(range(1, 41)) + [48, 63, 64, 65]
    EL = [("char", 1, 1), ("short", 2, 2), ("stripe::bytes<3>", 3, 1), ("int", 4, 4), ("stripe::bytes<5>", 5, 1), ("stripe::bytes<6>", 6, 1), ("double", 8, 8), ("stripe::bytes<12>", 12, 1),
          ("stripe::quads<16>", 16, 8), ("stripe::quads<24>", 24, 8), ("stripe::bytes<33>", 33, 1), ("long double", 16, 16)]
    BK = [(32, 4), (16, 4), (32, 8), (8, 2), (12, 4)]
    for bc, bw in BK:
        for ns in NS:
            if (bc, bw) != (32, 4) and not T and ns not in (1, 3, 5, 6, 8, 16, 17, 33):
                continue
            body = ""
            tail = "" if (bc, bw) == (32, 4) else f", {bc}, {bw}"
            for el, sz, al in EL:
                if (bc, bw) != (32, 4) and not T and sz in (2, 5, 12, 33):
                    continue
                b = base("x", [[0, 1, 2, 5, 33] if not T else [0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 70]], el, sz)
                ps.append(Prog(f"x:{ns}:{bc}:{bw}:{el}", b.ref, b.doms, f"\tauto s = {b.cpp} ^ noarr::cuda_striped<{ns}{tail}>();\n\tstripe::check<{ns}, {bc}, {bw}, 'x'>(s, pr, {sz}, {al}, {sz});\n\tpr.ok(s.align(noarr::empty_state) % {al} == 0, \"alignment of the structure\");", cost=1.5))
    for ns in (1, 2, 6, 16, 32, 33):
        for el, sz, al in (EL if T else EL[1::3]):
            two = base("xy", [[0, 1, 2, 3], [1, 2, 5]], el, sz)
            for nm, t in [("", two)] + [(n, t) for n, t in ops_all(two) if not n.startswith(("bcast", "vector", "autostep"))]:
                if nm and (ns not in (6, 32) or el not in ("short", "double")) and not T:
                    continue
                # views below the stripes do not change where the elements are: the stripes hold the layout of the whole structure
                v = t.cpp[len(two.cpp):]
                ps.append(Prog(f"xy:{ns}:{el}:{nm}", t.ref, fit(t.doms, 200), f"\tauto s = {two.cpp} ^ noarr::cuda_striped<{ns}>(){v};\n\tauto in = {two.cpp} ^ noarr::cuda_striped<{ns}>();\n\tstripe::view<{ns}{', ' + q(t.dims) if t.dims else ''}>(in, s, {two.cpp}, {t.cpp}, pr);" if nm else
                               f"\tauto s = {two.cpp} ^ noarr::cuda_striped<{ns}>();\n\tstripe::check<{ns}, 32, 4, 'x', 'y'>(s, pr, {sz}, {al}, {sz});", cost=2))
        # indivisible pieces
        for k, el, sz, al in ((3, "short", 2, 2), (2, "int", 4, 4), (5, "char", 1, 1), (3, "double", 8, 8), (7, "stripe::bytes<3>", 3, 1)):
            ps.append(Prog(f"piece:{ns}:{el}x{k}", f"scalar #{sz};vector e #{k};vector x $0", [[0, 1, 2, 5, 9]],
                           f"\tauto s = noarr::scalar<{el}>() ^ noarr::array<'e', {k}>() ^ noarr::vector<'x'>(p[0]) ^ noarr::cuda_striped<{ns}, noarr::array_t<'e', {k}, noarr::scalar<{el}>>>();\n\tstripe::check<{ns}, 32, 4, 'x', 'e'>(s, pr, {sz}, {al}, {sz * k});\n"
                           f"\tfor (ref::u64 x = 0; x < p[0]; x++) for (ref::u64 j = 0; j < {ns}; j++) for (ref::u64 e = 0; e < {k}; e++) pr.eq((s | noarr::offset(noarr::idx<'x', 'e'>(x, e) & noarr::cuda_stripe_idx(j))) - (s | noarr::offset(noarr::idx<'x', 'e'>(x, ref::u64(0)) & noarr::cuda_stripe_idx(j))), e * {sz}, \"a piece is stored consecutively\");", cost=2))
    for ns in NS:
        for el, sz, al in EL:
            ps.append(Prog(f"wide:{ns}:{el}", "", [[3, 65537, 4294967297, 8589934595]], f"\tstripe::wide([](ref::u64 n) {{ return noarr::scalar<{el}>() ^ noarr::vector<'x'>(n) ^ noarr::cuda_striped<{ns}>(); }}, pr, p[0], {ns}, {sz});", cost=1))
    for ns in range(1, 41):
        ps.append(Prog(f"groups:{ns}", "", [], f"\tstripe::groups<decltype(noarr::scalar<int>() ^ noarr::vector<'x'>(3) ^ noarr::cuda_striped<{ns}>())>(pr, {ns});", cost=0.5))
    chk.explore(ps, header=("cuda.hpp",), per_tu=30, extra=EX)
