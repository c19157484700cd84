#pragma once
#include <vshim/field.hpp>
namespace nil {
    namespace marshalling {
        enum class status_type { success, error };
        namespace option {
            struct big_endian { };
            struct little_endian { };
        }    // namespace option
        template<typename Endianness>
        struct field_type { };

        /// Bits of an integer, most or least significant first, as the container asked for.
        template<typename Endianness, typename Int>
        struct packed_bits {
            Int x;
            template<std::size_t N>
            operator std::array<bool, N>() const {
                std::array<bool, N> r {};
                for (std::size_t i = 0; i < N; i++) {
                    bool bit = boost::multiprecision::bit_test(x, i);
                    r[std::is_same<Endianness, option::big_endian>::value ? N - 1 - i : i] = bit;
                }
                return r;
            }
            template<typename T, typename = std::enable_if_t<std::is_same<T, bool>::value>>
            operator std::vector<T>() const {
                std::size_t n = std::numeric_limits<Int>::digits;
                std::vector<T> r(n);
                for (std::size_t i = 0; i < n; i++) {
                    bool bit = boost::multiprecision::bit_test(x, i);
                    r[std::is_same<Endianness, option::big_endian>::value ? n - 1 - i : i] = bit;
                }
                return r;
            }
        };
        template<typename Endianness, typename Int, typename = std::enable_if_t<vshim::is_mp_number<Int>::value>>
        packed_bits<Endianness, Int> pack(const Int &x, status_type &status) {
            status = status_type::success;
            return packed_bits<Endianness, Int> {x};
        }
        template<typename Endianness, typename Tag>
        packed_bits<Endianness, typename vshim::element<Tag>::integral_type> pack(const vshim::element<Tag> &x,
                                                                                  status_type &status) {
            status = status_type::success;
            return packed_bits<Endianness, typename vshim::element<Tag>::integral_type> {x.data.integral()};
        }
    }    // namespace marshalling
    namespace crypto3 {
        namespace marshalling {
            namespace types {
                template<typename Base, typename V>
                struct field_element { };
            }    // namespace types
        }        // namespace marshalling
    }            // namespace crypto3
}    // namespace nil
