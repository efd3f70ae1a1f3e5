"""Planted bugs, third round."""
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location("b2", _o.path.join(_o.path.dirname(__file__), "b2.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
HEAD = _m.HEAD
BUGS = []


def bug(id, property, edits, needs, breaks, demo, head=HEAD, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=head + demo, **kw))


bug("B17", "P13", [("extra/planner.hpp", "const std::size_t len = top_struct()", "const unsigned len = top_struct()")],
  "a plan over a dimension of more than 2^32 steps",
  "the loop of a planner ends after (length mod 2^32) steps",
  r'''
#include <noarr/structures/extra/planner.hpp>
struct stop {};
int main() {
	auto s = scalar<char>() ^ vector<'x'>((std::size_t(1) << 32) + 2);
	std::vector<char> none(1);
	std::size_t n = 0;
	try {
		(planner(make_bag(s, none.data())) ^ for_each_elem([&](auto &) { if (++n == 10) throw stop(); })).execute();
	} catch (stop) {}
	expect(n == 10, "the plan goes on");
}''')

bug("B18", "P09", [("extra/traverser.hpp", "if constexpr (sub_sig::template any_accept<Dim>) {\n			return I;", "if constexpr (sub_sig::template all_accept<Dim>) {\n			return I;")],
  "joint traversal of a tuple, only some fields of which have a dimension, with another structure having the dimension with a different length",
  "the length of the dimension is taken from the later structure",
  r'''
int main() {
	auto a = pack(scalar<int>() ^ vector<'x'>(std::size_t(2)), scalar<int>()) ^ tuple<'t'>();
	auto b = scalar<int>() ^ vector<'x'>(std::size_t(5));
	std::size_t n = 0;
	traverser(a, b).for_each([&](auto) { n++; });
	expect(n == 3, "2 elements of the first field and the second field");
}''')

bug("B19", "P19", [("extra/mangle.hpp", "append_int(out, false, t);", "append_int(out, false, static_cast<unsigned>(t));")],
  "describing a structure with a run-time length, start or step beyond 32 bits",
  "the description has only the lower 32 bits of the number",
  r'''
#include <string>
#include <noarr/structures/extra/mangle.hpp>
int main() {
	auto s = scalar<char>() ^ vector<'x'>(std::size_t(10000000000)) ^ shift<'x'>(std::size_t(7));
	expect(mangle_expr<std::string>(s).find("10000000000") != std::string::npos, "the length is in the description");
	expect(mangle_expr<std::string>(s).find("{7}") != std::string::npos, "the start is in the description");
}''')

bug("B22", "P23", [("structs/blocks.hpp", """			if constexpr (is_body<State>()) {
				return sub_structure_t::template has_length<Dim, sub_state_t<State>>();
			} else /*border*/ {
				return true;
			}""", """			return true;""")],
  "asking a structure split into blocks with a border whether it knows the number of its blocks, when the split dimension has no length yet",
  "the structure claims a length that cannot be obtained",
  r'''
int main() {
	auto s = scalar<char>() ^ vector<'x'>() ^ into_blocks_static<'x', 'r', 'b', 'a'>(lit<4>);
	using body = decltype(idx<'r'>(lit<0>));
	using border = decltype(idx<'r'>(lit<1>));
	expect(!decltype(s)::has_length<'b', body>(), "the number of blocks is unknown");
	expect(decltype(s)::has_length<'b', border>(), "there is one border");
	auto c = scalar<char>() ^ vector<'x'>(std::size_t(11)) ^ into_blocks_static<'x', 'r', 'b', 'a'>(lit<4>);
	expect(decltype(c)::has_length<'b', body>(), "the number of blocks is known");
	expect((c | get_length<'b'>(idx<'r'>(lit<0>))) == 2, "two blocks");
}''')

bug("B24", "P24", [("structs/slice.hpp", "using type = dep_function_sig<Dim, typename original::template ret_sig<Indices + start>...>;", "using type = dep_function_sig<Dim, typename original::template ret_sig<Indices>...>;", 1)],
  "a shifted tuple whose fields have different inner dimensions",
  "the type describes the first fields instead of the remaining ones, so a traversal loops over wrong dimensions",
  r'''
int main() {
	auto s = pack(scalar<int>(), scalar<int>() ^ vector<'x'>(std::size_t(3))) ^ tuple<'t'>() ^ shift<'t'>(lit<1>);
	using sig = typename decltype(s)::signature;
	static_assert(std::tuple_size_v<typename sig::ret_sig_tuple> == 1);
	expect(sig::ret_sig<0>::template any_accept<'x'>, "the remaining field has the dimension x");
}''')

bug("B27", "P20", [("interop/cuda_striped.cuh", "(blockDim.x + NumStripes - stripe_index - 1) / NumStripes", "(blockDim.x + NumStripes - 1) / NumStripes")],
  "a block size that is not a multiple of the number of stripes",
  "the later stripes claim one thread too many, so a part of the work given by rank and count is done by nobody",
  r'''
#include <noarr/structures/interop/cuda_striped.cuh>
int main() {
	auto s = scalar<int>() ^ vector<'x'>(std::size_t(4)) ^ cuda_striped<4>();
	std::size_t have[4] = {}, said[4] = {};
	blockDim.x = 10;
	for (unsigned t = 0; t < 10; t++) {
		threadIdx.x = t;
		auto cg = s.current_stripe_cg();
		have[s.current_stripe_index()]++;
		said[s.current_stripe_index()] = cg.num_threads();
	}
	for (int k = 0; k < 4; k++) expect(have[k] == said[k], "number of threads of a stripe");
}''', head="#define __device__\n#define __host__\ntypedef unsigned uint;\nstruct dim3 { uint x = 1, y = 1, z = 1; };\ninline dim3 threadIdx, blockIdx, blockDim, gridDim;\n" + HEAD)

bug("B29", "P22", [("base/structs_common.hpp", "(OuterProtoStruct::proto_preserves_layout && ... && InnerProtoStructs::proto_preserves_layout);", "OuterProtoStruct::proto_preserves_layout;")],
  "a combination of a layout-changing transformation with a following view",
  "the combination claims to keep the layout, so it is accepted where its parts are not (e.g. on a bag, which then addresses memory it does not have)",
  r'''
#include <noarr/structures/interop/bag.hpp>
template<class B, class P> concept can = requires(B b, P p) { b ^ p; };
int main() {
	int x[4];
	auto b = make_bag(scalar<int>() ^ vector<'x'>(std::size_t(4)), (void *)x);
	auto p = vector<'y'>(std::size_t(3));
	auto q = rename<'y', 'z'>();
	expect(!can<decltype(b), decltype(p)>, "layout change rejected");
	expect(!can<decltype(b), decltype(p ^ q)>, "layout change rejected in a combination");
	expect(can<decltype(b), decltype(q)> && can<decltype(b), decltype(rename<'x', 'u'>() ^ rename<'u', 'z'>())>, "views accepted");
}''')
