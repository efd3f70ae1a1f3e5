from ..gen import *
from ..core import Prog
import itertools

MAX = "(1 + (~std::size_t(0) >> 1))"


def zc(s, perm, mx, al, w="w", keep=None):
    nd = len(perm)
    pos = max(s.dims.index(d) for d in perm) - (nd - 1)
    rest = [d for d in s.dims if d not in perm]
    return s.ext(f"noarr::merge_zcurve<{q(perm)}, '{w}'>::maxlen_alignment<{mx}, {al}>()", f"zcurve {' '.join(perm)} {w}", rest[:pos] + [w] + rest[pos:], [], "no")


def corner_prog(dims, perm, mx, al, lens, nm):
    """lengths too large to tabulate: corner points of every box, rank computed by counting"""
    n = len(dims)
    idx = {d: i for i, d in enumerate(dims)}
    body = "\tauto s = noarr::scalar<char>()" + "".join(f" ^ noarr::vector<'{d}'>(p[{idx[d]}])" for d in dims[::-1])
    body += f";\n\tauto z = s ^ noarr::merge_zcurve<{q(perm)}, 'w'>::maxlen_alignment<{mx}, {al}>();\n"
    body += f"\tconst ref::u64 len[{n}] = {{{', '.join(f'p[{idx[d]}]' for d in perm)}}};\n"
    body += "\tzo::u128 vol = 1; for (auto l : len) vol *= l;\n\tif (vol >> 62) return;\n\tpr.eq(z | noarr::get_length<'w'>(), (ref::u64)vol, \"length of the curve\");\n"
    body += f"\tstd::vector<std::vector<ref::u64>> c({n});\n\tfor (int k = 0; k < {n}; k++) for (ref::u64 v : {{ref::u64(0), ref::u64(1), ref::u64(2), len[k] / 3, len[k] / 2 - 1, len[k] / 2, len[k] / 2 + 1, len[k] - 2, len[k] - 1}}) if (v < len[k] && std::find(c[k].begin(), c[k].end(), v) == c[k].end()) c[k].push_back(v);\n"
    loops = "".join(f"for (auto i{k} : c[{k}]) " for k in range(n))
    pt = ", ".join(f"i{k}" for k in range(n))
    body += f"\t{loops}{{\n\t\tconst ref::u64 pt[{n}] = {{{pt}}};\n\t\tref::u64 r = (ref::u64)zo::rank(pt, len);\n\t\tpr.state();\n"
    body += f"\t\tpr.eq(z | noarr::offset<'w'>(r), s | noarr::offset<{q(perm)}>({pt}), \"offset of curve index\", std::to_string(r));\n\t}}"
    return Prog(nm, "", [lens] * n, body, cost=3)


def run(chk, tier):
    ps = []
    T = tier == "thorough"
    for ds in ("xy", "xyz"):
        k = len(ds)
        for perm in itertools.permutations(ds):
            cfg = [(4, 1, [0, 1, 2, 3, 4]), (MAX, 1, [0, 1, 2, 3, 4, 5, 7]), (8, 2, [2, 4, 6, 8]), (8, 4, [4, 8]), (8, 8, [8]),
                   (16, 1, [1, 3, 7, 9, 16]), (16, 4, [4, 8, 12, 16]), (MAX, 2, [2, 4, 10]), (64, 1, [1, 6, 33, 64])]
            if T:
                cfg += [(16, 1, list(range(1, 17))), (32, 1, [11, 17, 31, 32]), (32, 8, [8, 16, 24, 32]), (MAX, 4, [4, 12, 20]), (4294967296, 1, [1, 2, 3, 5, 9])]
            for mx, al, dom in cfg:
                if k == 3:
                    dom = [v for v in dom if v <= (16 if T else 10)][:(16 if T else 5)] or dom[:1]
                s = zc(base(ds, [dom] * k), perm, mx, al)
                ps.append(prog(f"{ds}:zcurve({''.join(perm)},{mx if isinstance(mx,int) else 'max'},{al})", s, probe="probe::all", cost=3, cap=20000))
    # a curve over a part of the dimensions, and over block indices
    for ds, perm in (("xyz", "xy"), ("xyz", "zx"), ("xyz", "yz"), ("xyz", "zy"), ("xyz", "yx"), ("xyz", "xz")):
        for mx, al, dom in ((8, 1, [1, 2, 3, 5]), (8, 2, [2, 4]), (MAX, 1, [1, 3, 6])):
            s = zc(base(ds, [dom] * 3), perm, mx, al)
            ps.append(prog(f"part:{ds}:zcurve({perm},{mx if isinstance(mx,int) else 'max'},{al})", s, probe="probe::all", cost=3))
    for al, dom in ((1, [1, 2, 3, 4, 5]), (2, [2, 4, 6])):
        s = base("xy", [dom, [2, 4, 6, 8, 12]])
        s = s.ext("noarr::into_blocks<'y', 'Y', 'y'>({0})", "blocks y Y y {0}", ["x", "Y", "y"], [[1, 2, 4]], "no")
        for perm in ("Yx", "xY"):
            if al == 1 or True:
                t = zc(s, perm, 16, 1)
                ps.append(prog(f"blocked{al}:zcurve({perm})", t, probe="probe::all", cost=3))
    for v in ops_views(base("xy", [[1, 2, 3, 4], [1, 2, 3, 4, 5]])):
        n, s = v
        if "x" in s.dims and "y" in s.dims:
            ps.append(prog(f"{n}^zcurve", zc(s, "xy", 8, 1), probe="probe::all", cost=3))
            ps.append(prog(f"{n}^zcurve-max", zc(s, "yx", MAX, 1), probe="probe::all", cost=3))
    # long lengths
    L = [1, 2, 3, 7, 255, 256, 257, 65535, 65536, 65537, 1048576, 4294967296, 4294967297]
    for perm in ("xy", "yx"):
        ps.append(corner_prog("xy", perm, MAX, 1, L, f"corner:{perm},max,1"))
        ps.append(corner_prog("xy", perm, 8589934592, 1, L, f"corner:{perm},2^33,1"))
        ps.append(corner_prog("xy", perm, MAX, 2, [2, 6, 254, 256, 258, 65536, 65538, 4294967296], f"corner:{perm},max,2"))
        ps.append(corner_prog("xy", perm, MAX, 65536, [65536, 131072, 196608, 4294967296], f"corner:{perm},max,2^16"))
        ps.append(corner_prog("xy", perm, 65536, 65536, [65536], f"corner:{perm},2^16,2^16"))
        ps.append(corner_prog("xy", perm, 1048576, 1048576, [1048576], f"corner:{perm},2^20,2^20"))
        ps.append(corner_prog("xy", perm, 4194304, 131072, [131072, 393216, 4194304], f"corner:{perm},2^22,2^17"))
    for perm in ("xyz", "zxy", "yzx"):
        ps.append(corner_prog("xyz", perm, MAX, 1, L[:9] + [1048576], f"corner:{perm},max,1"))
        ps.append(corner_prog("xyz", perm, 2048, 2048, [2048], f"corner:{perm},2^11,2^11"))
        ps.append(corner_prog("xyz", perm, 65536, 65536, [65536], f"corner:{perm},2^16,2^16"))
        ps.append(corner_prog("xyz", perm, 131072, 4096, [4096, 12288, 131072], f"corner:{perm},2^17,2^12"))
    ps.append(corner_prog("wxyz".replace("w", "v"), "vxyz", MAX, 1, [1, 2, 3, 4, 5, 255, 256], "corner:vxyz,max,1"))
    ps.append(corner_prog("vxyz", "zxvy", 16, 2, [2, 4, 6, 10, 16], "corner:zxvy,16,2"))
    chk.explore(ps, header=("zorder.hpp",), per_tu=30, opt="-O1")
    chk.assumptions += ["lengths up to the stated domains; long lengths are probed at corner points of each box (rank computed by counting)"]
