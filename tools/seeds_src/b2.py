from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py")); _m = module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
BUGS = []
def bug(id, property, edits, needs, breaks, demo, head=HEAD, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=head + demo, **kw))

bug("B10", "P10", [("interop/traverser_iter.hpp",
  "return idx - other.idx;", "return static_cast<int>(idx) - static_cast<int>(other.idx);")],
  "two positions of a range more than 2^31 apart",
  "the distance of iterators is truncated to 32 bits",
  r'''
#include <noarr/structures/interop/traverser_iter.hpp>
int main() {
	auto s = scalar<char>() ^ vector<'x'>(std::size_t(5000000000));
	auto t = traverser(s);
	expect(t.end() - t.begin() == 5000000000, "distance");
	expect((t.begin() + 4999999999) - t.begin() == 4999999999, "distance of advanced iterator");
}''')

bug("B11", "P10", [("interop/traverser_iter.hpp",
  "return traverser_iterator_t<dim, Struct, Order>(*this, top_struct().template length<dim>(empty_state));",
  "return traverser_iterator_t<dim, Struct, Order>(*this, get_struct().template length<dim>(empty_state));")],
  "iterating (not looping) a traverser whose order shortens the topmost dimension without renaming it",
  "the end iterator ignores the order, so iteration runs past the end of the restricted dimension",
  r'''
#include <noarr/structures/interop/traverser_iter.hpp>
int main() {
	auto s = scalar<int>() ^ vector<'y'>(std::size_t(2)) ^ vector<'x'>(std::size_t(6));
	auto t = traverser(s).order(slice<'x'>(std::size_t(1), std::size_t(3)));
	std::vector<std::size_t> a, b;
	t.for_each([&](auto st) { a.push_back(get_index<'x'>(st) * 10 + get_index<'y'>(st)); });
	for (auto i : t) i.for_each([&](auto st) { b.push_back(get_index<'x'>(st) * 10 + get_index<'y'>(st)); });
	expect(a == b, "iteration equals the loop");
}''')

bug("B12", "P12", [("interop/tbb.hpp",
  "		out_ptrs.combine_each([out_struct, out_ptr, &f_join](const private_ptr &local_out_ptr) {\n",
  "		bool first = true;\n		out_ptrs.combine_each([out_struct, out_ptr, &f_join, &first](const private_ptr &local_out_ptr) {\n			if (std::exchange(first, false)) {\n				// nothing to join with yet\n				std::copy_n(static_cast<const char *>(local_out_ptr.raw), std::size_t(out_struct.size(empty_state)), static_cast<char *>(out_ptr));\n				return;\n			}\n")],
  "a reduction with private results whose output already holds a non-neutral value",
  "the first private result overwrites the initial content of the output instead of being joined with it",
  r'''
#include <noarr/structures/interop/tbb.hpp>
int main() {
	auto s = scalar<int>() ^ vector<'x'>(std::size_t(10));
	int out = 1000;
	auto o = scalar<int>();
	tbb_reduce(traverser(s), [](auto, void *p) { *(int *)p = 0; }, [](auto st, void *p) { *(int *)p += (int)get_index<'x'>(st); },
		[](auto, void *a, const void *b) { *(int *)a += *(const int *)b; }, o, &out);
	expect(out == 1045, "initial content is kept");
}''', libs="-ltbb")

bug("B15", "P04", [("structs/zcurve.hpp",
  "requires (Period >= sizeof RepBits * 8)", "requires (Period >= sizeof RepBits * 4)")],
  "a Z-order merge with a large alignment, so that the aligned part of the curve needs more than 32 bits",
  "bits of the index beyond the lower half are dropped, so positions repeat",
  r'''
int main() {
	// 2 dimensions, tiles of 2^17 x 2^17: position 2^33 is the first with the 17th bit (index 16) set in one of them
	auto s = scalar<char>() ^ vector<'x'>(std::size_t(1) << 17) ^ vector<'y'>(std::size_t(1) << 17) ^ merge_zcurve<'y', 'x', 'z'>::maxlen_alignment<(std::size_t(1) << 17), (std::size_t(1) << 17)>();
	std::size_t z = std::size_t(1) << 33; // bit 33: index bit 16 of y
	std::size_t off = s | offset<'z'>(z);
	expect(off == (std::size_t(1) << 16) * (std::size_t(1) << 17), "Morton position of a high bit");
}''', head=HEAD + "#include <noarr/structures/structs/zcurve.hpp>\n")

