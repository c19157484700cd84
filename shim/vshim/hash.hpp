#pragma once
#include <vshim/field.hpp>
#include <array>
#include <string>
#include <vector>
namespace vshim {
    /// Keccak-256 with the original padding.
    inline std::array<std::uint8_t, 32> keccak256(const std::vector<std::uint8_t> &in) {
        std::uint64_t a[25] = {};
        auto permute = [&a]() {
            static const unsigned rot[25] = {0,  1,  62, 28, 27, 36, 44, 6,  55, 20, 3,  10, 43,
                                             25, 39, 41, 45, 15, 21, 8,  18, 2,  61, 56, 14};
            unsigned lfsr = 1;
            for (int round = 0; round < 24; round++) {
                std::uint64_t c[5], b[25];
                for (int x = 0; x < 5; x++) {
                    c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
                }
                for (int x = 0; x < 5; x++) {
                    std::uint64_t n = c[(x + 1) % 5];
                    std::uint64_t d = c[(x + 4) % 5] ^ ((n << 1) | (n >> 63));
                    for (int y = 0; y < 25; y += 5) {
                        a[x + y] ^= d;
                    }
                }
                for (int x = 0; x < 5; x++) {
                    for (int y = 0; y < 5; y++) {
                        std::uint64_t v = a[x + 5 * y];
                        unsigned r = rot[x + 5 * y];
                        b[y + 5 * ((2 * x + 3 * y) % 5)] = r ? (v << r) | (v >> (64 - r)) : v;
                    }
                }
                for (int y = 0; y < 25; y += 5) {
                    for (int x = 0; x < 5; x++) {
                        a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
                    }
                }
                for (int j = 0; j < 7; j++) {
                    if (lfsr & 1) {
                        a[0] ^= std::uint64_t(1) << ((1 << j) - 1);
                    }
                    lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171);
                }
            }
        };
        std::vector<std::uint8_t> m = in;
        m.push_back(1);
        while (m.size() % 136) {
            m.push_back(0);
        }
        m.back() |= 0x80;
        for (std::size_t off = 0; off < m.size(); off += 136) {
            for (std::size_t i = 0; i < 136; i++) {
                a[i / 8] ^= std::uint64_t(m[off + i]) << (8 * (i % 8));
            }
            permute();
        }
        std::array<std::uint8_t, 32> r {};
        for (std::size_t i = 0; i < 32; i++) {
            r[i] = static_cast<std::uint8_t>(a[i / 8] >> (8 * (i % 8)));
        }
        return r;
    }
}    // namespace vshim
namespace nil {
    namespace crypto3 {
        namespace hashes {
            template<std::size_t N>
            struct keccak_1600 { };
            template<std::size_t N>
            struct sha2 { };
        }    // namespace hashes
        namespace accumulators { }
        namespace detail {
            struct digest_hex {
                std::array<std::uint8_t, 32> d;
                operator std::string() const {
                    std::string s;
                    for (auto b : d) {
                        s += "0123456789abcdef"[b >> 4];
                        s += "0123456789abcdef"[b & 15];
                    }
                    return s;
                }
            };
        }    // namespace detail
        template<typename Hash, typename It>
        detail::digest_hex hash(It b, It e) {
            static_assert(std::is_same<Hash, hashes::keccak_1600<256>>::value, "only Keccak-256 is provided");
            return {vshim::keccak256(std::vector<std::uint8_t>(b, e))};
        }
    }    // namespace crypto3
}    // namespace nil
