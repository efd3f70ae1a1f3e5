HEAD = r'''
#include <noarr/structures_extended.hpp>
#include <noarr/traversers.hpp>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <array>
using namespace noarr;
static void expect(bool ok, const char *what) { if(!ok) { std::printf("FAILED: %s\n", what); std::exit(1); } }
'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo, head=HEAD, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=head + demo, **kw))

bug("B01", "P02", [("structs/slice.hpp",
  "return (sub_length + stride() - start() - make_const<1>()) / stride();",
  "return (sub_length - start() - make_const<1>()) / stride() + make_const<1>();")],
  "a step whose start is at or past the end of the dimension (as happens for the last workers when there are more workers than elements)",
  "the stepped view must be empty, but its length wraps around to a huge number",
  r'''
int main() {
	volatile std::size_t n = 3;
	auto s = scalar<int>() ^ vector<'x'>(std::size_t(n));
	std::size_t total = 0;
	for (std::size_t t = 0; t < 8; ++t) {
		std::size_t l = (s ^ step<'x'>(t, std::size_t(8))) | get_length<'x'>();
		expect(l == (t < 3 ? 1u : 0u), "length of a stepped view");
		total += l;
	}
	expect(total == 3, "workers cover the array");
}''')

bug("B02", "P06", [("structs/slice.hpp",
  "state.template get<index_in<Dim>>() + start, state.template get<length_in<Dim>>() + start);",
  "state.template get<index_in<Dim>>() + start, state.template get<length_in<Dim>>());")],
  "a shifted view over a not yet sized inner dimension, nested in an outer dimension, with the length supplied after the shift and the outer index nonzero",
  "the length below the shift is too short when an index is present, so outer strides are wrong for accesses",
  r'''
int main() {
	auto s = scalar<int>() ^ vector<'x'>() ^ vector<'y'>() ^ set_length<'y'>(std::size_t(4)) ^ shift<'x'>(std::size_t(2)) ^ set_length<'x'>(std::size_t(5));
	for (std::size_t y = 0; y < 4; ++y) for (std::size_t x = 0; x < 5; ++x)
		expect((s | offset<'x', 'y'>(x, y)) == (y * 7 + x + 2) * sizeof(int), "offset");
}''')

bug("B03", "P03", [("structs/blocks.hpp",
  "const auto minor_length = (full_length + major_length - make_const<1>()) / major_length;\n				const auto full_index",
  "const auto minor_length = full_length / major_length;\n				const auto full_index")],
  "dynamic blocks sized by the number of blocks (not by the block size), with a length that is not divisible by it",
  "the presence flag is computed with a smaller block size than the addressing, so elements past the end are reported present",
  r'''
int main() {
	std::size_t n = 7, blocks = 3; // block size 3: 3+3+1
	auto s = scalar<int>() ^ vector<'x'>(n) ^ into_blocks_dynamic<'x', 'X', 'x', 'p'>() ^ set_length<'X'>(blocks);
	std::size_t cnt = 0;
	for (std::size_t X = 0; X < 3; ++X) for (std::size_t x = 0; x < 3; ++x) {
		std::size_t p = s ^ fix<'X', 'x'>(X, x) | get_length<'p'>();
		expect(p == (X * 3 + x < n ? 1u : 0u), "presence flag");
		cnt += p;
	}
	expect(cnt == n, "each element present once");
}''')

bug("B05", "P05", [("structs/blocks.hpp",
  "using rem = static_arg_length<Num % Denom>;",
  "using rem = static_arg_length<Num / Denom ? Num % Denom : Denom>;")],
  "a statically known length smaller than the static block size",
  "the statically known length of the border (in the type) differs from the run-time length",
  r'''
int main() {
	auto s = scalar<int>() ^ vector<'x'>(lit<3>) ^ into_blocks_static<'x', 'b', 'X', 'x'>(lit<4>);
	auto b = s ^ fix<'b'>(lit<1>);
	std::size_t run = b | get_length<'x'>();
	using sig = typename decltype(b)::signature;
	expect(run == 3, "border length");
	expect(sig::ret_sig::arg_length::value == run, "static border length agrees with the measured one");
}''')

bug("B07", "P11", [("interop/tbb.hpp",
  ": base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {",
  ": base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(begin_idx + (orig.end_idx - orig.begin_idx) / 2) {", 1)],
  "splitting a range of an odd number of elements",
  "the second half of a split range loses or gains elements",
  r'''
#include <noarr/structures/interop/tbb.hpp>
int main() {
	for (std::size_t n = 2; n < 40; ++n) {
		auto s = scalar<int>() ^ vector<'x'>(n);
		auto a = traverser(s).range();
		decltype(a) b(a, tbb::split());
		std::vector<int> seen(n + 64, 0);
		auto visit = [&](auto st) { seen[get_index<'x'>(st)]++; };
		a.for_each(visit); b.for_each(visit);
		for (std::size_t i = 0; i < seen.size(); ++i) expect(seen[i] == (i < n), "split keeps the elements");
	}
}''', libs="-ltbb")

bug("B08", "P09", [("extra/traverser.hpp",
  "		} else if constexpr (I < sizeof...(Structs) - 1) {\n			return find_first_match<Dim, I + 1>();",
  "		} else if constexpr (I + 2 < sizeof...(Structs)) {\n			return find_first_match<Dim, I + 2>();\n		} else if constexpr (I < sizeof...(Structs) - 1) {\n			return find_first_match<Dim, I + 1>();")],
  "at least four structures traversed jointly with a dimension that appears first in the second of them",
  "structures are skipped when the length of a dimension is looked up, so the length comes from a later structure (or is not found)",
  r'''
int main() {
	auto a = scalar<int>() ^ vector<'x'>(std::size_t(2));
	auto b = scalar<int>() ^ vector<'y'>(std::size_t(2)) ^ vector<'x'>(std::size_t(2));
	auto c = scalar<int>() ^ vector<'y'>(std::size_t(5));
	std::size_t n = 0;
	traverser(a, b, c).for_each([&](auto) { ++n; });
	expect(n == 4, "the first structure having a dimension determines its length");
}''')
