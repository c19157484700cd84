// Stand-in for the extended Boost.Multiprecision that crypto3 ships: the fixed
// width unsigned backend and its user-defined literals.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <algorithm>
#include <array>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <boost/assert.hpp>
#include <boost/multiprecision/cpp_int.hpp>

namespace boost {
    namespace multiprecision {
        namespace backends {
            template<std::size_t Bits>
            using cpp_int_modular_backend = cpp_int_backend<Bits, Bits, unsigned_magnitude, unchecked, void>;
            template<typename Backend>
            struct modular_params {
                Backend modulus;
                constexpr modular_params(const Backend &m) : modulus(m) {
                }
            };
            template<typename Backend, const modular_params<Backend> &Params>
            struct modular_params_ct { };
            template<typename Backend>
            struct word_backend;
            template<std::size_t Bits>
            struct word_backend<cpp_int_backend<Bits, Bits, unsigned_magnitude, unchecked, void>> {
                // The only modulus used this way is 2^(Bits - 1).
                using type = cpp_int_modular_backend<Bits - 1>;
            };
            template<typename Backend, typename Params>
            using modular_adaptor = typename word_backend<Backend>::type;
        }
        using backends::cpp_int_modular_backend;
    }    // namespace multiprecision
}    // namespace boost

namespace vshim {
    template<unsigned Bits>
    using uint_n = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>>;

    template<typename T>
    struct is_mp_number : std::false_type { };
    template<typename B, boost::multiprecision::expression_template_option ET>
    struct is_mp_number<boost::multiprecision::number<B, ET>> : std::true_type { };

    template<unsigned Bits, char... S>
    constexpr uint_n<Bits> parse_literal() {
        constexpr char s[] = {S..., 0};
        constexpr std::size_t n = sizeof...(S);
        constexpr std::size_t L = (Bits + 63) / 64 + 1;
        std::uint64_t limbs[L] = {};
        std::size_t i = 0;
        std::uint64_t base = 10;
        if (n > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
            base = 16;
            i = 2;
        }
        for (; i < n; i++) {
            char c = s[i];
            if (c == '\'') {
                continue;
            }
            std::uint64_t d = c <= '9' ? c - '0' : (c >= 'a' ? c - 'a' + 10 : c - 'A' + 10);
            unsigned __int128 carry = d;
            for (std::size_t k = 0; k < L; k++) {
                unsigned __int128 v = (unsigned __int128)limbs[k] * base + carry;
                limbs[k] = (std::uint64_t)v;
                carry = v >> 64;
            }
        }
        uint_n<Bits> r(0u);
        for (std::size_t k = (Bits + 63) / 64; k-- > 0;) {
            if (k + 1 != (Bits + 63) / 64) {
                r = uint_n<Bits>(r << 64);
            }
            r |= uint_n<Bits>(limbs[k]);
        }
        return r;
    }
}    // namespace vshim

#define VSHIM_LITERAL(N)                             \
    template<char... S>                              \
    constexpr vshim::uint_n<N> operator"" _cppui_modular##N() { \
        return vshim::parse_literal<N, S...>();      \
    }
VSHIM_LITERAL(64)
VSHIM_LITERAL(81)
VSHIM_LITERAL(128)
// The Poseidon parameters of up to 254 bits are written with this one: a literal keeps all the digits its words hold.
template<char... S>
constexpr vshim::uint_n<256> operator"" _cppui_modular253() {
    return vshim::parse_literal<256, S...>();
}
VSHIM_LITERAL(254)
VSHIM_LITERAL(255)
VSHIM_LITERAL(256)
VSHIM_LITERAL(257)
VSHIM_LITERAL(298)
VSHIM_LITERAL(381)
VSHIM_LITERAL(512)
#undef VSHIM_LITERAL
