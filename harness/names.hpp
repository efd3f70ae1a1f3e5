// Dimension names that are easily confused: the letters of the reference model stand for characters and dim<> objects of equal value.
#pragma once
#include <noarr/structures_extended.hpp>
#include "rt.hpp"
#define VERIF_NAMES
namespace names {
template<char C>
struct empty_tag {};
struct value_tag {
	int a;
	char c;
	constexpr bool operator==(const value_tag &) const = default;
};
} // namespace names
inline constexpr auto D_x = 'a';
inline constexpr auto D_y = noarr::dim<'a'>();
inline constexpr auto D_z = noarr::dim<int('a')>();
inline constexpr auto D_A = noarr::dim<names::empty_tag<'A'>{}>();
inline constexpr auto D_B = noarr::dim<names::value_tag{1, 'a'}>();
inline constexpr auto D_a = noarr::dim<(unsigned char)'a'>();
inline constexpr auto D_b = noarr::dim<long('a')>();
inline constexpr auto D_t = noarr::dim<names::value_tag{2, 'a'}>();
inline constexpr auto D_M = 'b';
inline constexpr auto D_m = noarr::dim<'b'>();
inline constexpr auto D_P = noarr::dim<int('b')>();
inline constexpr auto D_c = noarr::dim<names::empty_tag<'c'>{}>();
inline constexpr auto D_d = noarr::dim<names::value_tag{1, 'b'}>();
inline constexpr auto D_C = noarr::dim<(unsigned char)'b'>();
inline constexpr auto D_D = noarr::dim<long('b')>();
inline constexpr auto D_i = noarr::dim<names::value_tag{2, 'b'}>();
inline constexpr auto D_j = 'c';
inline constexpr auto D_u = noarr::dim<'c'>();
inline constexpr auto D_v = noarr::dim<int('c')>();
inline constexpr auto D_r = noarr::dim<names::empty_tag<'r'>{}>();
inline constexpr auto D_s = noarr::dim<names::value_tag{1, 'c'}>();
inline constexpr auto D_T = noarr::dim<(unsigned char)'c'>();
inline constexpr auto D_o = noarr::dim<long('c')>();
inline constexpr auto D_p = noarr::dim<names::value_tag{2, 'c'}>();
inline constexpr auto D_q = 'd';
inline constexpr auto D_Q = noarr::dim<'d'>();
inline constexpr auto D_R = noarr::dim<int('d')>();
inline constexpr auto D_S = noarr::dim<names::empty_tag<'S'>{}>();
inline constexpr auto D_e = noarr::dim<names::value_tag{1, 'd'}>();
inline constexpr auto D_f = noarr::dim<(unsigned char)'d'>();
inline constexpr auto D_g = noarr::dim<long('d')>();
inline constexpr auto D_h = noarr::dim<names::value_tag{2, 'd'}>();
inline constexpr auto D_k = 'e';
inline constexpr auto D_l = noarr::dim<'e'>();
inline constexpr auto D_n = noarr::dim<int('e')>();
inline constexpr auto D_w = noarr::dim<names::empty_tag<'w'>{}>();
inline constexpr auto D_E = noarr::dim<names::value_tag{1, 'e'}>();
inline constexpr auto D_F = noarr::dim<(unsigned char)'e'>();
inline constexpr auto D_G = noarr::dim<long('e')>();
inline constexpr auto D_H = noarr::dim<names::value_tag{2, 'e'}>();
inline constexpr auto D_X = 'f';
inline constexpr auto D_Y = noarr::dim<'f'>();
inline constexpr auto D_Z = noarr::dim<int('f')>();
inline constexpr auto D_I = noarr::dim<names::empty_tag<'I'>{}>();
inline constexpr auto D_J = noarr::dim<names::value_tag{1, 'f'}>();
inline constexpr auto D_K = noarr::dim<(unsigned char)'f'>();
inline constexpr auto D_L = noarr::dim<long('f')>();
inline constexpr auto D_N = noarr::dim<names::value_tag{2, 'f'}>();
inline constexpr auto D_O = 'g';
inline constexpr auto D_U = noarr::dim<'g'>();
inline constexpr auto D_V = noarr::dim<int('g')>();
inline constexpr auto D_W = noarr::dim<names::empty_tag<'W'>{}>();
#include "probes.hpp"
namespace probe {
template<>
inline constexpr char nm<D_x> = 'x';
template<>
inline constexpr char nm<D_y> = 'y';
template<>
inline constexpr char nm<D_z> = 'z';
template<>
inline constexpr char nm<D_A> = 'A';
template<>
inline constexpr char nm<D_B> = 'B';
template<>
inline constexpr char nm<D_a> = 'a';
template<>
inline constexpr char nm<D_b> = 'b';
template<>
inline constexpr char nm<D_t> = 't';
template<>
inline constexpr char nm<D_M> = 'M';
template<>
inline constexpr char nm<D_m> = 'm';
template<>
inline constexpr char nm<D_P> = 'P';
template<>
inline constexpr char nm<D_c> = 'c';
template<>
inline constexpr char nm<D_d> = 'd';
template<>
inline constexpr char nm<D_C> = 'C';
template<>
inline constexpr char nm<D_D> = 'D';
template<>
inline constexpr char nm<D_i> = 'i';
template<>
inline constexpr char nm<D_j> = 'j';
template<>
inline constexpr char nm<D_u> = 'u';
template<>
inline constexpr char nm<D_v> = 'v';
template<>
inline constexpr char nm<D_r> = 'r';
template<>
inline constexpr char nm<D_s> = 's';
template<>
inline constexpr char nm<D_T> = 'T';
template<>
inline constexpr char nm<D_o> = 'o';
template<>
inline constexpr char nm<D_p> = 'p';
template<>
inline constexpr char nm<D_q> = 'q';
template<>
inline constexpr char nm<D_Q> = 'Q';
template<>
inline constexpr char nm<D_R> = 'R';
template<>
inline constexpr char nm<D_S> = 'S';
template<>
inline constexpr char nm<D_e> = 'e';
template<>
inline constexpr char nm<D_f> = 'f';
template<>
inline constexpr char nm<D_g> = 'g';
template<>
inline constexpr char nm<D_h> = 'h';
template<>
inline constexpr char nm<D_k> = 'k';
template<>
inline constexpr char nm<D_l> = 'l';
template<>
inline constexpr char nm<D_n> = 'n';
template<>
inline constexpr char nm<D_w> = 'w';
template<>
inline constexpr char nm<D_E> = 'E';
template<>
inline constexpr char nm<D_F> = 'F';
template<>
inline constexpr char nm<D_G> = 'G';
template<>
inline constexpr char nm<D_H> = 'H';
template<>
inline constexpr char nm<D_X> = 'X';
template<>
inline constexpr char nm<D_Y> = 'Y';
template<>
inline constexpr char nm<D_Z> = 'Z';
template<>
inline constexpr char nm<D_I> = 'I';
template<>
inline constexpr char nm<D_J> = 'J';
template<>
inline constexpr char nm<D_K> = 'K';
template<>
inline constexpr char nm<D_L> = 'L';
template<>
inline constexpr char nm<D_N> = 'N';
template<>
inline constexpr char nm<D_O> = 'O';
template<>
inline constexpr char nm<D_U> = 'U';
template<>
inline constexpr char nm<D_V> = 'V';
template<>
inline constexpr char nm<D_W> = 'W';
} // namespace probe
