#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (so that they cannot drift apart)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "include/noarr/structures/"
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique, note, observe=None):
    a = dict(files=[B + f if not f.startswith("include") else f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=tests, anchors=a), technique, note))


EXPL = "bounded exhaustive enumeration of structure programs x all parameter and index values, executed on the real headers and compared with an independent explicit-state table model (model traces = every case, replayed against the implementation)"

prop("P01", "Physical layouts tile memory: every index has its own bytes inside size()",
     "For every physical layout (scalars, vectors, arrays, tuples, nested in any order, with any element type) the offset of an index equals the mixed-radix position of that index in nesting order, distinct indices occupy disjoint byte ranges, every range lies inside the reported size, and the reported size and lengths are exactly what was set. The fields of a tuple lie in order, each aligned for its type in every element of an array of tuples, with no more padding than that needs. This holds for all lengths including zero, one and values beyond 32 bits.",
     ["inputs", "programs"], "all nestings of layouts up to the bound, all lengths in the domain (small exhaustively, plus 32/64-bit boundary values), all valid indices",
     "tests check a handful of hand-picked sizes and offsets; they never enumerate every index of every nesting nor lengths beyond 32 bits",
     ["structs/layouts.hpp", "structs/scalar.hpp", "extra/funcs.hpp", "base/contain.hpp"],
     [("vector/tuple offset, size, length", B + "structs/layouts.hpp"), ("offset/get_at/get_size front end", B + "extra/funcs.hpp"), ("parameter storage", B + "base/contain.hpp")],
     EXPL, "exhaustive up to 3-4 nested layouts, lengths 0..5 and 32/64-bit boundary values, every index")

prop("P02", "View transformations address exactly the element they are documented to select",
     "Fixing, shifting, slicing, spanning, stepping, reversing, renaming, reordering, hoisting, joining or broadcasting a dimension yields a structure whose lengths and whose element at every valid index are those obtained by applying the documented index mapping to the original structure. Views never change the total size, and any composition of views behaves as the composition of the mappings.",
     ["inputs", "programs"], "all chains of views up to the depth bound over 1-3 dimensional bases, all parameters satisfying the documented preconditions, all indices",
     "tests cover single views at a few points and only a couple of compositions; wrong results that need a particular composition or parameter are not sampled",
     ["structs/slice.hpp", "structs/views.hpp", "structs/bcast.hpp", "structs/setters.hpp"],
     [("shift/slice/span/step/reverse", B + "structs/slice.hpp"), ("rename/reorder/hoist/join", B + "structs/views.hpp"), ("bcast", B + "structs/bcast.hpp"), ("fix", B + "structs/setters.hpp")],
     EXPL, "depth 2 (quick) / 3 (thorough) chains of the full view alphabet, all parameters 0..3 plus 64-bit boundary values")

prop("P03", "Blocking and merging are exact, inverse re-indexings",
     "Splitting a dimension into blocks (divisible, statically bordered, or dynamically sized) addresses each original element exactly once, through the block and in-block index whose combination is the original index, with a border or presence flag that covers precisely the leftover elements. Merging two dimensions enumerates their pairs major-first, and merging what was just split restores the original addressing.",
     ["inputs", "programs"], "all blocking/merging/strip-mining transformations alone and composed with each other and with views, all lengths and block sizes including non-divisible and oversized ones",
     "tests use a few divisible sizes and two or three remainders; the leftover logic depends on every (length, block) combination",
     ["structs/blocks.hpp"],
     [("into_blocks, static and dynamic variants, merge_blocks", B + "structs/blocks.hpp"), ("strip_mine", B + "extra/shortcuts.hpp")],
     EXPL, "all lengths 0..9 x block sizes 1..5 and compositions of depth 2, plus 64-bit boundary values")

prop("P04", "Z-order merging is a bijection in Morton order",
     "Merging dimensions along a Z-order curve visits every combination of the original indices exactly once, in bit-interleaved (Morton) order inside each aligned tile, for every permitted maximum length, alignment, dimension count and actual lengths, including lengths that are not powers of two.",
     ["inputs", "programs", "configurations"], "all 2-4 dimensional curves, all permitted (maximum length, alignment) pairs in the bound, all lengths, all curve positions",
     "tests check three small curves; overflow, irregular lengths and alignment interplay are not reached",
     ["structs/zcurve.hpp"],
     [("curve index decomposition", B + "structs/zcurve.hpp")],
     EXPL, "maximum lengths up to 2^20+, all lengths up to the tile bound, every curve position compared with an independent interleaver")

prop("P05", "Compile-time and run-time parameters give the same structure",
     "Whether a length, block size, start, stride or index is given as a compile-time constant or as a run-time value never changes any length, size, offset or traversal: for each mix of constant and run-time parameters the structure is observably the same. Lengths reported statically in the structure's type agree with the lengths measured at run time.",
     ["inputs", "programs", "configurations"], "all structure programs of the alphabet, all subsets of parameters made constant, all indices",
     "tests use either form but never compare the two for the same structure; the static paths are separate template branches",
     ["structs/slice.hpp", "structs/blocks.hpp", "structs/layouts.hpp", "structs/setters.hpp", "structs/views.hpp", "base/signature.hpp", "base/contain.hpp"],
     [("signature length computation", B + "structs/*.hpp (signature, replacement)"), ("constant-preserving arithmetic", B + "base/utility.hpp")],
     EXPL, "every subset mask of parameters of every single transformation and selected pairs")

prop("P06", "A length supplied later is as good as one supplied at once",
     "A structure declared without some lengths behaves, once those lengths are supplied by any means (a later setting, the accessing state, or joint traversal), exactly like the structure declared with them from the start; the order in which lengths and views are applied does not matter where the documentation permits both.",
     ["inputs", "programs"], "all deferred-length programs of the alphabet, all ways of supplying the length, all values",
     "tests supply lengths one way for each structure",
     ["structs/setters.hpp", "structs/layouts.hpp", "structs/blocks.hpp", "structs/slice.hpp", "base/structs_common.hpp", "base/state.hpp"],
     [("set_length / length in state", B + "structs/setters.hpp"), ("state-directed length/size/offset", B + "base/structs_common.hpp")],
     EXPL, "all deferred-length programs, lengths in 0..6, every supply route")

prop("P07", "Traversal visits every valid index exactly once, in nesting order",
     "Traversing a structure calls the body exactly once for every valid index combination (no omission, no repetition, none out of range), in the nesting order of the dimensions, for every composition of transformations and every length including zero; tuple fields are visited in order with compile-time indices.",
     ["inputs", "programs"], "all structures of the alphabet to depth 2-3, all lengths and parameters",
     "tests traverse a few fixed shapes and often check only counts",
     ["extra/traverser.hpp", "base/signature.hpp", "structs/blocks.hpp", "structs/views.hpp"],
     [("for_each recursion over the signature", B + "extra/traverser.hpp")],
     EXPL, "full visited sequence compared element by element")

prop("P08", "Traversal orders and partial traversals partition the full traversal",
     "Applying any order transformation to a traverser only permutes, restricts or regroups the visited indices as documented; running over chosen dimensions and finishing each section inside visits, over all sections, exactly the same indices in the same order as one full traversal; each section knows its fixed indices.",
     ["inputs", "programs"], "all order transformations to depth 2, all subsets and permutations of outer dimensions, all lengths",
     "tests check one or two orders by hand",
     ["extra/traverser.hpp", "structs/views.hpp", "structs/blocks.hpp"],
     [("order, for_each with dimensions, for_sections, for_dims", B + "extra/traverser.hpp")],
     EXPL, "all order programs and dimension subsets of the bounds")

prop("P09", "Joint traversal of several structures is consistent",
     "A traverser over several structures visits exactly the combinations of the union of their dimensions, nested as in the first structure, with the dimensions that a later structure adds outside of those, the length of each dimension being that of the first structure which has it. At every step each structure is addressable by its own dimensions alone with the visited values.",
     ["inputs", "programs"], "all pairs (and triples) of structures from the alphabet sharing any subset of dimensions, all lengths",
     "tests use two or three fixed combinations",
     ["extra/traverser.hpp", "extra/to_struct.hpp", "base/signature.hpp"],
     [("signature union", B + "extra/traverser.hpp")],
     EXPL, "all pairs of a 15+ structure alphabet")

prop("P10", "Ranges and iterators enumerate the same elements as the loop",
     "Iterating a traversal as a range (forward, backward, by random access, by sub-ranges, through nested ranges) yields exactly the sequence of indices the loop visits; iterator distance, comparison, advance and dereference obey the random-access laws for every pair of positions.",
     ["inputs", "programs", "histories"], "all structures of the alphabet, all positions and all pairs of positions, all sub-ranges",
     "tests iterate a few ranges forward only",
     ["interop/traverser_iter.hpp", "extra/traverser.hpp"],
     [("range and iterator arithmetic", B + "interop/traverser_iter.hpp")],
     EXPL, "every pair of iterator positions and every sub-range up to the length bound")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    NA = globals().get("NOT_APPLICABLE", [])
    na = {n["property"] for n in NA}
    m = dict(version=1, setup_cmd="python3 /verif/tools/selftest.py", checks=[
        dict(property=p["id"], quick_cmd=f"python3 /verif/check.py {p['id']} quick", thorough_cmd=f"python3 /verif/check.py {p['id']} thorough",
             technique="model checking: " + t, level="model_checking", level_note=n, evidence_file=f"evidence/{p['id']}.json") for p, t, n in P if p["id"] not in na],
        not_applicable=NA, notes=globals().get("NOTES", "See DESIGN.md."))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
