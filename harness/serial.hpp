// Text serialisation: every structure, every cut point of the input, every failure point of the output.
#pragma once
#include "probes.hpp"
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/serialize_data.hpp>
#include <cstring>
#include <limits>
#include <sstream>

namespace serial {
using ref::u64;
using rt::Probe;

// output buffer that accepts `left` characters, then fails
struct limited : std::streambuf {
	std::string got;
	std::size_t left;
	explicit limited(std::size_t n) : left(n) {}
	int_type overflow(int_type c) override {
		if (c == traits_type::eof() || left == 0) return traits_type::eof();
		left--, got.push_back(char(c));
		return c;
	}
	std::streamsize xsputn(const char *s, std::streamsize n) override {
		std::streamsize k = 0;
		while (k < n && left) got.push_back(s[k++]), left--;
		return k;
	}
};

// values with 1..n characters, signs and extremes where the type has them
template<class T>
T val(u64 k) {
	if constexpr (std::is_floating_point_v<T>) return T(int(k % 7) - 3) * T(0.25) + T(k % 3 == 0 ? 1000 : 0);
	else {
		if (k % 5 == 1) return std::numeric_limits<T>::max();
		if (k % 5 == 3) return std::numeric_limits<T>::min();
		return T(k * 7 + 1);
	}
}
template<class T>
std::string text(T v) {
	std::ostringstream o;
	o << v;
	return o.str();
}

struct elem {
	u64 off;
	std::string t;   // its text
};

// rows: elements in traversal order; put(base, k): stores value k; get(base, k): text of element k
// rd(stream, base) / wr(stream, base): the library calls (several variants)
template<class T, class S>
void roundtrip(const S &s, Probe &pr, const std::vector<u64> &offs, u64 bytes, bool repeated) {
	const u64 n = offs.size();
	std::vector<std::string> tx;
	std::map<u64, u64> owner;   // offset -> last writer
	for (u64 k = 0; k < n; k++) owner[offs[k]] = k;
	std::vector<unsigned char> buf(bytes + 64, 0xE7), want;
	unsigned char *base = buf.data() + 32;
	// ---- writing
	for (u64 k = 0; k < n; k++) {
		T v = val<T>(owner[offs[k]]);
		std::memcpy(base + offs[k], &v, sizeof v);
		tx.push_back(text(v));
	}
	std::string all;
	for (auto &t : tx) all += t + "\n";
	want = buf;
	auto wr = [&](int how, std::ostream &o) -> std::ostream & {
		switch (how) {
		case 0: return noarr::serialize_data(o, s, (const void *)base);
		case 1: return noarr::serialize_data(o, noarr::make_bag(s, (void *)base));
		default: {
			const auto b = noarr::make_bag(s, (const void *)base);
			return noarr::serialize_data(o, b);
		}
		}
	};
	for (int how = 0; how < 3; how++) {
		std::ostringstream o;
		auto &r = wr(how, o);
		pr.ok(&r == &o, "the stream is returned");
		if (!pr.ok(o.str() == all, "written text", "got " + o.str() + " want " + all)) return;
		pr.ok(!!r, "stream state after writing");
		pr.state();
	}
	pr.ok(buf == want, "writing does not modify the data");
	// every failure point of the output: a correct prefix is written, the error is reported
	for (std::size_t cut = 0; cut <= all.size(); cut++) {
		limited lb(cut);
		std::ostream o(&lb);
		auto &r = wr(cut % 3, o);
		if (!pr.ok(lb.got == all.substr(0, lb.got.size()), "output before a failure is a prefix", std::to_string(cut))) return;
		if (!pr.ok(bool(r) == (cut >= all.size()), "a failed write is visible on the stream", std::to_string(cut))) return;
		pr.state();
	}
	// ---- reading back
	auto rd = [&](int how, std::istream &in) -> std::istream & {
		auto b = noarr::make_bag(s, (void *)base);
		switch (how) {
		case 0: return noarr::deserialize_data(in, s, (void *)base);
		case 1: return noarr::deserialize_data(in, b);
		default: return noarr::deserialize_data(in, b.get_ref());
		}
	};
	auto clear = [&] { std::fill(buf.begin(), buf.end(), 0xE7); };
	const char *seps[] = {"\n", " ", "\t\n  ", "\r\n"};
	for (int how = 0; how < 3; how++)
		for (auto sep : seps)
			for (int lead = 0; lead < 2; lead++) {
				std::string in = lead ? sep : "";
				for (u64 k = 0; k < n; k++) in += tx[k] + (k + 1 < n ? sep : "");
				std::string tail = " 77 x\n";
				std::istringstream is(in + tail);
				clear();
				auto &r = rd(how, is);
				pr.ok(&r == &is, "the stream is returned");
				pr.ok(!!r, "stream state after reading");
				if (!pr.ok(buf == want, "data read back equal the data written")) return;
				std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
				if (n) pr.ok(rest == tail, "nothing after the last element is consumed", rest);
				else pr.ok(rest == in + tail, "nothing is consumed for an empty structure", rest);
				pr.state();
			}
	// every cut point of the input: complete elements are read, later ones untouched, the error is visible
	if (!repeated) {
		for (std::size_t cut = 0; cut < all.size(); cut++) {
			std::istringstream is(all.substr(0, cut));
			std::size_t pos = 0, done = 0;   // elements whose text is complete within the cut
			while (done < n && pos + tx[done].size() <= cut) pos += tx[done].size() + 1, done++;
			clear();
			auto &r = rd(cut % 3, is);
			bool partial = done == n - 1 && pos < cut;   // the last number is truncated, which may look like a shorter number
			if (!pr.ok(partial || bool(r) == (done == n), "an incomplete input is visible on the stream", std::to_string(cut))) return;
			bool good = true;
			for (u64 k = 0; k < done; k++) good = good && !std::memcmp(base + offs[k], want.data() + 32 + offs[k], sizeof(T));
			if (!pr.ok(good, "elements before the cut are read", std::to_string(cut))) return;
			// the element being read when the input ends may hold a partial value; nothing else changes
			std::vector<bool> may(buf.size());
			for (u64 k = 0; k <= done && k < n; k++)
				for (u64 i = 0; i < sizeof(T); i++) may[32 + offs[k] + i] = true;
			for (std::size_t i = 0; i < buf.size(); i++) good = good && (may[i] || buf[i] == 0xE7);
			if (!pr.ok(good, "nothing but the elements read is modified", std::to_string(cut))) return;
			pr.state();
		}
	}
	// every element replaced by something that is not a value
	if (!repeated && !std::is_same_v<T, char> && !std::is_same_v<T, unsigned char>) {
		for (u64 bad = 0; bad < n; bad++) {
			std::string in;
			for (u64 k = 0; k < n; k++) in += (k == bad ? std::string("@") : tx[k]) + "\n";
			std::istringstream is(in);
			clear();
			auto &r = rd(bad % 3, is);
			if (!pr.ok(!r, "a malformed input is visible on the stream", std::to_string(bad))) return;
			bool good = true;
			for (u64 k = 0; k < bad; k++) good = good && !std::memcmp(base + offs[k], want.data() + 32 + offs[k], sizeof(T));
			std::vector<bool> may(buf.size());
			for (u64 k = 0; k <= bad; k++)
				for (u64 i = 0; i < sizeof(T); i++) may[32 + offs[k] + i] = true;
			for (std::size_t i = 0; i < buf.size(); i++) good = good && (may[i] || buf[i] == 0xE7);
			if (!pr.ok(good, "elements before a malformed one are read, later ones are untouched", std::to_string(bad))) return;
			pr.state();
		}
	}
	// two structures in one stream
	{
		std::stringstream st;
		std::vector<unsigned char> b2 = want;
		unsigned char *p2 = b2.data() + 32;
		for (u64 k = 0; k < n; k++) {
			T v = val<T>(owner[offs[k]] + 2);
			std::memcpy(p2 + offs[k], &v, sizeof v);
		}
		auto want2 = b2;
		buf = want;
		noarr::serialize_data(noarr::serialize_data(st, s, (const void *)base), s, (const void *)p2);
		clear();
		std::fill(b2.begin(), b2.end(), 0xE7);
		noarr::deserialize_data(noarr::deserialize_data(st, s, (void *)base), s, (void *)p2);
		pr.ok(!!st && buf == want, "first of two structures in one stream");
		pr.ok(b2 == want2, "second of two structures in one stream");
		static_assert(std::is_same_v<decltype(noarr::serialize_data(std::ostringstream(), s, (const void *)base)), std::ostringstream &&>);
		static_assert(std::is_same_v<decltype(noarr::deserialize_data(std::istringstream(), s, (void *)base)), std::istringstream &&>);
	}
}
template<class T, class S>
void check(const S &s, Probe &pr) {
	std::vector<u64> offs;
	for (auto &r : pr.r->rows) offs.push_back(r.off);
	auto u = offs;
	std::sort(u.begin(), u.end());
	bool rep = std::adjacent_find(u.begin(), u.end()) != u.end();
	roundtrip<T>(s, pr, offs, pr.r->size, rep);
}
} // namespace serial
