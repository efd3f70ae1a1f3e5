"""Planted bugs, fourth round."""
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location("b3", _o.path.join(_o.path.dirname(__file__), "b3.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
HEAD = _m.HEAD
BUGS = []


def bug(id, property, edits, needs, breaks, demo, head=HEAD, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=head + demo, **kw))


bug("B31", "P14", [("extra/shortcuts.hpp", "good_diff_index_t<decltype(state.template get<index_in<Dims>>() + diffs)>(state.template get<index_in<Dims>>() +\n	                                                                              diffs)...", "good_diff_index_t<decltype(state.template get<index_in<Dims>>() + diffs)>(state.template get<index_in<Dims>>() +\n	                                                                              static_cast<int>(diffs))...")],
  "a neighbour farther than 2^31 away", "the distance to the neighbour is truncated to 32 bits",
  r'''
int main() {
	auto n = neighbor<'x'>(idx<'x'>(std::size_t(5)), std::size_t(1) << 33);
	expect(get_index<'x'>(n) == (std::size_t(1) << 33) + 5, "neighbour");
}''')

