// Independent Z-order oracle by counting (no table): rank of a point among all points of a box.
#pragma once
#include "probes.hpp"
namespace zo {
using ref::u64;
typedef unsigned __int128 u128;
// number of v in [lo, lo+2^t) with v < len
inline u128 cnt(u64 lo, int t, u64 len) {
	u128 hi = u128(lo) + (u128(1) << t);
	if (lo >= len) return 0;
	return (hi < len ? hi : u128(len)) - lo;
}
// key = bits interleaved, last dimension least significant; rank = #points of the box with a smaller key
template<std::size_t N>
u128 rank(const u64 (&p)[N], const u64 (&len)[N]) {
	u128 r = 0;
	for (int b = 63; b >= 0; b--)
		for (std::size_t k = 0; k < N; k++)
			if ((p[k] >> b) & 1) {
				u128 c = 1;
				for (std::size_t j = 0; j < N; j++) {
					u64 pre_hi = b == 63 ? 0 : (p[j] >> (b + 1)) << (b + 1); // bits above b fixed
					if (j < k) c *= cnt(pre_hi | (p[j] & (u64(1) << b)), b, len[j]);
					else if (j == k) c *= cnt(pre_hi, b, len[j]);
					else c *= cnt(pre_hi, b + 1, len[j]);
				}
				r += c;
			}
	return r;
}
} // namespace zo
