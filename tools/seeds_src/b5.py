"""Planted bugs, fifth round."""
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location("b3", _o.path.join(_o.path.dirname(__file__), "b3.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
HEAD = _m.HEAD
BUGS = []


def bug(id, property, edits, needs, breaks, demo, head=HEAD, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=head + demo, **kw))


bug("B33", "P08", [("extra/traverser.hpp", "	-> decltype(t.template for_sections<Dims...>(f)) {\n	return t.template for_sections<Dims...>(f);",
  "	-> decltype(t.template for_sections<Dims...>(f)) {\n	if constexpr (sizeof...(Dims) > 3) {\n		return t.template for_dims<Dims...>(f);\n	} else {\n		return t.template for_sections<Dims...>(f);\n	}")],
  "for_sections over four dimensions, named in another order than the structure has, given to a traverser by |",
  "sections are visited in the order of the names, not in the order of the traverser",
  r'''
int main() {
	auto s = scalar<int>() ^ vector<'x'>(2) ^ vector<'y'>(3) ^ vector<'z'>(2) ^ vector<'w'>(2);
	std::vector<std::size_t> a, b;
	traverser(s).for_sections<'x', 'y', 'z', 'w'>([&](auto t) { a.push_back(s | offset(t.state())); });
	traverser(s) | for_sections<'x', 'y', 'z', 'w'>([&](auto t) { b.push_back(s | offset(t.state())); });
	expect(a == b, "both forms visit the same sections in the same order");
}''')

bug("B34", "P07", [("extra/traverser.hpp", "			for (std::size_t i = 0; i < len; i++) {\n				for_each_impl(Branches()..., f, state.template with<index_in<Dim>>(i));\n			}",
  "			std::size_t i = 0;\n			if (len > 96) {\n				for (; i + 16 <= len; i += 16) {\n					for (std::size_t j = 0; j < 16; j++) {\n						for_each_impl(Branches()..., f, state.template with<index_in<Dim>>(i + j));\n					}\n				}\n				i = (len + 15) / 16 * 16;\n			}\n			for (; i < len; i++) {\n				for_each_impl(Branches()..., f, state.template with<index_in<Dim>>(i));\n			}")],
  "a dimension of a length above 96 that is not a multiple of 16",
  "the remainder is not visited",
  r'''
int main() {
	for (std::size_t n = 0; n < 200; n++) {
		std::size_t c = 0;
		traverser(scalar<int>() ^ vector<'x'>(n)).for_each([&](auto) { c++; });
		expect(c == n, "every index visited");
	}
}''')

bug("B36", "P18", [("extra/shortcuts.hpp", "return into_blocks_dynamic<Dim, DimMajor, DimMinor, DimIsPresent>(optional_minor_length...) ^ hoist<DimMajor>();",
  "return into_blocks_dynamic<Dim, DimMajor, DimMinor, DimIsPresent>(optional_minor_length...) ^ hoist<DimMinor>() ^ hoist<DimMajor>();")],
  "strip_mine_dynamic of a dimension that is not the topmost", "the minor dimension becomes an outer one",
  r'''
int main() {
	auto s = scalar<int>() ^ vector<'y'>(5) ^ vector<'x'>(2);
	std::vector<std::size_t> a, b;
	traverser(s ^ strip_mine_dynamic<'y', 'Y', 'b', 'p'>(std::size_t(2))).for_each([&](auto st) { a.push_back(offset(st)(s ^ strip_mine_dynamic<'y', 'Y', 'b', 'p'>(std::size_t(2)))); });
	auto l = s ^ into_blocks_dynamic<'y', 'Y', 'b', 'p'>(std::size_t(2)) ^ hoist<'Y'>();
	traverser(l).for_each([&](auto st) { b.push_back(offset(st)(l)); });
	expect(a == b, "the shorthand does what the longhand does");
}''')

bug("B37", "P27", [("structs/layouts.hpp", "			return offset_of<Sub>(sub_struct, sub_stat, index * sub_struct.size(sub_stat) + start);",
  "			if constexpr (std::is_same_v<Sub, T> && requires { typename Sub::signature::ret_sig; }) {\n				return index * sub_struct.size(sub_stat);\n			} else {\n				return offset_of<Sub>(sub_struct, sub_stat, index * sub_struct.size(sub_stat) + start);\n			}")],
  "the place of a whole row (not of an element) inside a structure of three or more dimensions",
  "the place of the enclosing part is forgotten",
  r'''
int main() {
	auto row = scalar<int>() ^ vector<'x'>(3);
	auto mat = row ^ vector<'y'>(4);
	auto s = mat ^ vector<'z'>(5);
	for (std::size_t z = 0; z < 5; z++)
		for (std::size_t y = 0; y < 4; y++)
			for (std::size_t x = 0; x < 3; x++) {
				auto st = idx<'z', 'y', 'x'>(z, y, x);
				expect((s | offset(st)) == (s | offset<decltype(row)>(st)) + (row | offset<'x'>(x)), "place of the row plus place in the row");
			}
}''')

bug("B38", "P17", [("introspection/lower_bound_along.hpp", "				structure.sub_structure(), structure.sub_state(state), min + start, end + start);",
  "				structure.sub_structure(), structure.sub_state(state), min + start, end);", 2)],
  "a range of indices of a span of a reversed dimension", "the lower bound of the range is above the lowest offset",
  r'''
#include <noarr/structures/introspection/lower_bound_along.hpp>
int main() {
	auto s = scalar<int>() ^ vector<'x'>(10) ^ reverse<'x'>() ^ slice<'x'>(2, 6);
	for (std::size_t a = 0; a < 6; a++)
		for (std::size_t b = a + 1; b <= 6; b++) {
			std::size_t m = -1;
			for (std::size_t i = a; i < b; i++) m = std::min(m, std::size_t(s | offset<'x'>(i)));
			expect(lower_bound_along<'x'>(s, empty_state, a, b) == m, "the lowest offset of the range");
		}
}''')

bug("B39", "P21", [("interop/cuda_traverser.cuh", "return (... && full.template length<DimsT>(empty_state)) && (... && full.template length<DimsB>(empty_state));",
  "return (... && full.template length<DimsT>(empty_state));")],
  "a structure with a non-empty dimension of threads and an empty dimension of blocks", "a traverser with nothing to run says that it has something to run",
  r'''
#define __device__
struct dim3 { unsigned x = 1, y = 1, z = 1; };
using uint = unsigned;
static dim3 blockIdx, threadIdx;
#include <noarr/structures/interop/cuda_traverser.cuh>
int main() {
	for (std::size_t g = 0; g < 3; g++)
		for (std::size_t k = 0; k < 3; k++) {
			auto t = cuda_threads<'y', 'x'>(traverser(scalar<int>() ^ vector<'x'>(k) ^ vector<'y'>(g)));
			expect(bool(t) == (g * k != 0), "there is something to run iff both are positive");
		}
}''')
