// Prime fields: Montgomery arithmetic behind the interface the repository uses.
#pragma once
#include <vshim/mp.hpp>
#include <random>

#define VSHIM_NOSAN __attribute__((no_sanitize("address", "undefined")))

namespace vshim {
    typedef std::uint64_t u64;
    typedef unsigned __int128 u128;

    template<std::size_t N>
    struct limbs {
        u64 v[N];
    };

    template<std::size_t N, typename Int>
    constexpr limbs<N> to_limbs(Int x) {
        limbs<N> r {};
        for (std::size_t i = 0; i < N; i++) {
            r.v[i] = static_cast<u64>(x & Int(0xFFFFFFFFFFFFFFFFULL));
            x = Int(x >> 64);
        }
        return r;
    }

    template<std::size_t N>
    constexpr bool geq(const limbs<N> &a, const limbs<N> &b) {
        for (std::size_t i = N; i-- > 0;) {
            if (a.v[i] != b.v[i]) {
                return a.v[i] > b.v[i];
            }
        }
        return true;
    }

    template<std::size_t N>
    VSHIM_NOSAN constexpr u64 sub_in(limbs<N> &a, const limbs<N> &b) {
        u64 borrow = 0;
        for (std::size_t i = 0; i < N; i++) {
            u128 t = (u128)a.v[i] - b.v[i] - borrow;
            a.v[i] = (u64)t;
            borrow = (u64)(t >> 64) & 1;
        }
        return borrow;
    }

    template<std::size_t N>
    VSHIM_NOSAN constexpr u64 add_in(limbs<N> &a, const limbs<N> &b) {
        u64 carry = 0;
        for (std::size_t i = 0; i < N; i++) {
            u128 t = (u128)a.v[i] + b.v[i] + carry;
            a.v[i] = (u64)t;
            carry = (u64)(t >> 64);
        }
        return carry;
    }

    constexpr u64 neg_inv64(u64 p) {
        u64 inv = 1;
        for (int i = 0; i < 63; i++) {
            inv = inv * inv;
            inv = inv * p;
        }
        return (u64)0 - inv;
    }

    template<std::size_t N>
    constexpr limbs<N> pow2_mod(const limbs<N> &p, std::size_t e) {
        limbs<N> r {};
        r.v[0] = 1;
        for (std::size_t i = 0; i < e; i++) {
            limbs<N> c = r;
            u64 carry = add_in(r, c);
            if (carry || geq(r, p)) {
                sub_in(r, p);
            }
        }
        return r;
    }

    /// Tag supplies `bits`, `modulus()`.
    template<typename Tag>
    struct field_consts {
        static constexpr std::size_t bits = Tag::bits;
        static constexpr std::size_t N = (bits + 63) / 64;
        static constexpr limbs<N> p = to_limbs<N>(Tag::modulus());
        static constexpr u64 inv = neg_inv64(p.v[0]);
        static constexpr limbs<N> r1 = pow2_mod<N>(p, 64 * N);
        static constexpr limbs<N> r2 = pow2_mod<N>(p, 128 * N);

        VSHIM_NOSAN static constexpr limbs<N> mul(const limbs<N> &a, const limbs<N> &b) {
            u64 t[N + 2] = {};
            for (std::size_t i = 0; i < N; i++) {
                u64 c = 0;
                for (std::size_t j = 0; j < N; j++) {
                    u128 s = (u128)a.v[j] * b.v[i] + t[j] + c;
                    t[j] = (u64)s;
                    c = (u64)(s >> 64);
                }
                u128 s = (u128)t[N] + c;
                t[N] = (u64)s;
                t[N + 1] = (u64)(s >> 64);
                u64 m = t[0] * inv;
                s = (u128)m * p.v[0] + t[0];
                c = (u64)(s >> 64);
                for (std::size_t j = 1; j < N; j++) {
                    s = (u128)m * p.v[j] + t[j] + c;
                    t[j - 1] = (u64)s;
                    c = (u64)(s >> 64);
                }
                s = (u128)t[N] + c;
                t[N - 1] = (u64)s;
                t[N] = t[N + 1] + (u64)(s >> 64);
            }
            limbs<N> r {};
            for (std::size_t i = 0; i < N; i++) {
                r.v[i] = t[i];
            }
            if (t[N] || geq(r, p)) {
                sub_in(r, p);
            }
            return r;
        }
    };

    /// What `value.data` is: converts to any big integer, to machine integers
    /// on request, and prints as the canonical residue.
    template<typename Tag>
    struct modular {
        using C = field_consts<Tag>;
        static constexpr std::size_t N = C::N;
        using integral_type = uint_n<Tag::bits>;
        limbs<N> m {};

        constexpr limbs<N> canon() const {
            limbs<N> one {};
            one.v[0] = 1;
            return C::mul(m, one);
        }
        constexpr integral_type integral() const {
            limbs<N> c = canon();
            integral_type r(0u);
            for (std::size_t k = N; k-- > 0;) {
                if (k + 1 != N) {
                    r = integral_type(r << 64);
                }
                r |= integral_type(c.v[k]);
            }
            return r;
        }
        template<typename B, boost::multiprecision::expression_template_option ET>
        constexpr operator boost::multiprecision::number<B, ET>() const {
            return static_cast<boost::multiprecision::number<B, ET>>(integral());
        }
        template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
        explicit constexpr operator T() const {
            return static_cast<T>(canon().v[0]);
        }
        // The canonical residue: the stand-in does not expose a Montgomery form.
        struct backend_view {
            typename integral_type::backend_type b;
            constexpr const typename integral_type::backend_type &base_data() const {
                return b;
            }
        };
        constexpr backend_view backend() const {
            return backend_view {integral().backend()};
        }
        constexpr bool is_zero() const {
            for (std::size_t i = 0; i < N; i++) {
                if (m.v[i]) {
                    return false;
                }
            }
            return true;
        }
        friend constexpr bool operator==(const modular &a, const modular &b) {
            for (std::size_t i = 0; i < N; i++) {
                if (a.m.v[i] != b.m.v[i]) {
                    return false;
                }
            }
            return true;
        }
        friend constexpr bool operator!=(const modular &a, const modular &b) {
            return !(a == b);
        }
        friend constexpr bool operator<(const modular &a, const modular &b) {
            return !geq(a.canon(), b.canon());
        }
        // Integer-style operators act on the canonical residue.
        template<typename S, typename = std::enable_if_t<std::is_integral<S>::value>>
        friend constexpr modular operator>>(const modular &a, S s) {
            return from_integral(integral_type(a.integral() >> s));
        }
        template<typename S, typename = std::enable_if_t<std::is_integral<S>::value>>
        friend constexpr modular operator<<(const modular &a, S s) {
            modular r = a;
            for (S i = 0; i < s; i++) {
                r = r + r;
            }
            return r;
        }
        template<typename S, typename = std::enable_if_t<std::is_integral<S>::value>>
        constexpr modular &operator>>=(S s) {
            return *this = *this >> s;
        }
        friend constexpr modular operator-(const modular &a, const modular &b) {
            modular r = a;
            if (sub_in(r.m, b.m)) {
                add_in(r.m, C::p);
            }
            return r;
        }
        friend constexpr modular operator+(const modular &a, const modular &b) {
            modular r = a;
            u64 carry = add_in(r.m, b.m);
            if (carry || geq(r.m, C::p)) {
                sub_in(r.m, C::p);
            }
            return r;
        }
        friend constexpr modular operator&(const modular &a, const modular &b) {
            return from_integral(integral_type(a.integral() & b.integral()));
        }
        // x must be below the modulus
        static constexpr modular from_integral(integral_type x) {
            modular r;
            r.m = C::mul(to_limbs<N>(x), C::r2);
            return r;
        }
        template<typename S, typename = std::enable_if_t<std::is_integral<S>::value || is_mp_number<S>::value>>
        friend constexpr bool operator!=(const modular &a, const S &s) {
            return a.integral() != s;
        }
        template<typename S, typename = std::enable_if_t<std::is_integral<S>::value || is_mp_number<S>::value>>
        friend constexpr bool operator==(const modular &a, const S &s) {
            return a.integral() == s;
        }
        friend std::ostream &operator<<(std::ostream &os, const modular &a) {
            return os << a.integral();
        }
    };

    template<typename Tag>
    struct field;

    template<typename Tag>
    struct element {
        using field_type = field<Tag>;
        using C = field_consts<Tag>;
        static constexpr std::size_t N = C::N;
        using modular_type = modular<Tag>;
        using integral_type = uint_n<Tag::bits>;
        static constexpr integral_type modulus = Tag::modulus();
        modular_type data;

        constexpr element() = default;
        constexpr element(const modular_type &d) : data(d) {
        }
        template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>, typename = void>
        constexpr element(T x) {
            bool negative = x < 0;
            limbs<N> l {};
            l.v[0] = negative ? (u64)0 - (u64)(std::int64_t)x : (u64)x;
            set(l);
            if (negative) {
                *this = -*this;
            }
        }
        template<typename B, boost::multiprecision::expression_template_option ET>
        constexpr element(const boost::multiprecision::number<B, ET> &x) {
            set_number(x);
        }
        template<typename T, typename A1, typename A2, typename A3, typename A4>
        constexpr element(const boost::multiprecision::detail::expression<T, A1, A2, A3, A4> &x) {
            using R = typename boost::multiprecision::detail::expression<T, A1, A2, A3, A4>::result_type;
            set_number(R(x));
        }

        static constexpr element zero() {
            return element();
        }
        static constexpr element one() {
            element r;
            r.data.m = C::r1;
            return r;
        }
        constexpr bool is_zero() const {
            return data.is_zero();
        }
        constexpr bool is_one() const {
            return *this == one();
        }
        friend constexpr bool operator==(const element &a, const element &b) {
            return a.data == b.data;
        }
        friend constexpr bool operator!=(const element &a, const element &b) {
            return !(a.data == b.data);
        }
        friend constexpr bool operator<(const element &a, const element &b) {
            return a.data < b.data;
        }
        friend constexpr bool operator>(const element &a, const element &b) {
            return b.data < a.data;
        }
        friend constexpr bool operator<=(const element &a, const element &b) {
            return !(b.data < a.data);
        }
        friend constexpr bool operator>=(const element &a, const element &b) {
            return !(a.data < b.data);
        }
        constexpr element &operator+=(const element &o) {
            u64 carry = add_in(data.m, o.data.m);
            if (carry || geq(data.m, C::p)) {
                sub_in(data.m, C::p);
            }
            return *this;
        }
        constexpr element &operator-=(const element &o) {
            if (sub_in(data.m, o.data.m)) {
                add_in(data.m, C::p);
            }
            return *this;
        }
        constexpr element &operator*=(const element &o) {
            data.m = C::mul(data.m, o.data.m);
            return *this;
        }
        constexpr element &operator/=(const element &o) {
            return *this *= o.inversed();
        }
        constexpr element &operator++() {
            return *this += one();
        }
        constexpr element operator++(int) {
            element r = *this;
            *this += one();
            return r;
        }
        constexpr element &operator--() {
            return *this -= one();
        }
        constexpr element operator--(int) {
            element r = *this;
            *this -= one();
            return r;
        }
        friend constexpr element operator+(element a, const element &b) {
            return a += b;
        }
        friend constexpr element operator-(element a, const element &b) {
            return a -= b;
        }
        friend constexpr element operator*(element a, const element &b) {
            return a *= b;
        }
        friend constexpr element operator/(element a, const element &b) {
            return a /= b;
        }
        constexpr element operator-() const {
            return is_zero() ? *this : (zero() - *this);
        }
        constexpr element doubled() const {
            return *this + *this;
        }
        constexpr element squared() const {
            return *this * *this;
        }
        template<typename P>
        constexpr element pow(const P &e) const {
            element r = one(), b = *this;
            P x = e;
            while (x != 0) {
                if (static_cast<unsigned>(x & 1)) {
                    r *= b;
                }
                b *= b;
                x = P(x >> 1);
            }
            return r;
        }
        constexpr element pow(const modular_type &e) const {
            return pow(e.integral());
        }
        constexpr element inversed() const {
            if (is_zero()) {
                // crypto3 asserts on this; a component must never ask for it.
                throw std::domain_error("inverse of zero requested");
            }
            return pow(integral_type(Tag::modulus() - integral_type(2u)));
        }
        bool is_square() const {
            return is_zero() || pow(integral_type((Tag::modulus() - 1u) >> 1)).is_one();
        }
        element sqrt() const {
            if (is_zero()) {
                return *this;
            }
            if (!is_square()) {
                throw std::domain_error("square root of a non-residue requested");
            }
            integral_type q = Tag::modulus() - 1u;
            unsigned s = 0;
            while (!(q & 1u)) {
                q >>= 1;
                s++;
            }
            element z(2u);
            while (z.is_square()) {
                z += one();
            }
            element c = z.pow(q), r = pow(integral_type((q + 1u) >> 1)), t = pow(q);
            unsigned m = s;
            while (!t.is_one()) {
                unsigned i = 0;
                element u = t;
                while (!u.is_one()) {
                    u = u.squared();
                    i++;
                }
                element b = c;
                for (unsigned k = 0; k + i + 1 < m; k++) {
                    b = b.squared();
                }
                m = i;
                c = b.squared();
                t *= c;
                r *= b;
            }
            return r;
        }
        friend std::ostream &operator<<(std::ostream &os, const element &e) {
            return os << e.data;
        }

    private:
        constexpr void set(const limbs<N> &l) {
            limbs<N> x = l;
            // at most a handful of subtractions: values are below 2^(64 N)
            while (geq(x, C::p)) {
                if (C::p.v[N - 1] < (u64(1) << 32)) {
                    break;
                }
                sub_in(x, C::p);
            }
            data.m = C::mul(x, C::r2);
        }
        template<typename X>
        constexpr void set_number(const X &x) {
            if constexpr (std::numeric_limits<X>::is_signed) {
                if (x < 0) {
                    set_number_abs(X(-x));
                    *this = -*this;
                    return;
                }
            }
            set_number_abs(x);
        }
        template<typename X>
        constexpr void set_number_abs(const X &x0) {
            if constexpr (sizeof(*x0.backend().limbs()) == 8) {
                if (x0.backend().size() <= N) {
                    limbs<N> small {};
                    for (std::size_t i = 0; i < x0.backend().size(); i++) {
                        small.v[i] = x0.backend().limbs()[i];
                    }
                    if (!geq(small, C::p)) {
                        data.m = C::mul(small, C::r2);
                        return;
                    }
                }
            }
            using Wide = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<
                1024, 1024, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>>;
            Wide x(x0);
            if (x >= Wide(Tag::modulus())) {
                x %= Wide(Tag::modulus());
            }
            limbs<N> l = to_limbs<N>(x);
            data.m = C::mul(l, C::r2);
        }
    };

    template<typename Tag>
    struct field {
        using tag = Tag;
        static constexpr std::size_t modulus_bits = Tag::bits;
        static constexpr std::size_t number_bits = Tag::bits;
        static constexpr std::size_t value_bits = Tag::bits;
        static constexpr std::size_t arity = 1;
        static constexpr std::size_t capacity() {
            return Tag::bits - 1;
        }
        using integral_type = uint_n<Tag::bits>;
        using extended_integral_type = uint_n<(Tag::bits <= 256 ? 512 : 2 * Tag::bits)>;
        using value_type = element<Tag>;
        using modular_type = modular<Tag>;
        using base_field_type = field<Tag>;
        static constexpr integral_type modulus = Tag::modulus();
    };

    /// Found by argument-dependent lookup, as crypto3's free function is.
    template<typename Tag, typename E>
    constexpr element<Tag> power(const element<Tag> &x, const E &e) {
        return x.pow(e);
    }

    /// Engine behind random_element/algebraic_engine; deterministic by default.
    template<typename Field, typename = void>
    struct is_point_group : std::false_type { };
    template<typename Field>
    struct is_point_group<Field, std::void_t<typename Field::value_type::point_tag>> : std::true_type { };

    template<typename Field>
    std::enable_if_t<!is_point_group<Field>::value, typename Field::value_type> random_from(std::mt19937_64 &g) {
        typename Field::extended_integral_type x = 0u;
        for (std::size_t i = 0; i < 2 * Field::modulus_bits; i += 64) {
            x = (x << 64) | typename Field::extended_integral_type(g());
        }
        return typename Field::value_type(x);
    }
    template<typename Field>
    std::enable_if_t<is_point_group<Field>::value, typename Field::value_type> random_from(std::mt19937_64 &g) {
        return Field::value_type::one() * random_from<typename Field::scalar_field_type>(g);
    }
    inline std::mt19937_64 &global_engine() {
        static std::mt19937_64 g(0x5eed);
        return g;
    }
}    // namespace vshim

namespace std {
    template<typename Tag>
    struct hash<vshim::element<Tag>> {
        std::size_t operator()(const vshim::element<Tag> &e) const {
            std::size_t h = 0;
            for (std::size_t i = 0; i < vshim::element<Tag>::N; i++) {
                h = h * 0x9e3779b97f4a7c15ULL + e.data.m.v[i];
            }
            return h;
        }
    };
}    // namespace std

namespace vshim {
#define VSHIM_FIELD(NAME, BITS, MOD)                    \
    struct NAME##_tag {                                 \
        static constexpr std::size_t bits = BITS;       \
        static constexpr uint_n<BITS> modulus() {       \
            constexpr uint_n<BITS> m = uint_n<BITS>(MOD##_cppui_modular##BITS); \
            return m;                                   \
        }                                               \
    };
    VSHIM_FIELD(pallas_base, 255, 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001)
    VSHIM_FIELD(vesta_base, 255, 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001)
    VSHIM_FIELD(bls12_fr, 255, 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001)
    VSHIM_FIELD(bls12_fq, 381, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab)
    VSHIM_FIELD(curve25519_base, 255, 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed)
    VSHIM_FIELD(ed25519_scalar, 253, 0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed)
    VSHIM_FIELD(goldilocks, 64, 0xffffffff00000001)
    VSHIM_FIELD(bn254_fr, 254, 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001)
    VSHIM_FIELD(bn254_fq, 254, 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47)
    VSHIM_FIELD(mnt4_fq, 298, 475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081)
    VSHIM_FIELD(mnt4_fr, 298, 475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137)
#undef VSHIM_FIELD
}    // namespace vshim

namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace fields {
                using pallas_base_field = vshim::field<vshim::pallas_base_tag>;
                using pallas_fq = pallas_base_field;
                using pallas_scalar_field = vshim::field<vshim::vesta_base_tag>;
                using vesta_base_field = vshim::field<vshim::vesta_base_tag>;
                using vesta_scalar_field = vshim::field<vshim::pallas_base_tag>;
                using curve25519_base_field = vshim::field<vshim::curve25519_base_tag>;
                using curve25519_scalar_field = vshim::field<vshim::ed25519_scalar_tag>;
                using ed25519_base_field = curve25519_base_field;
                using ed25519_scalar_field = curve25519_scalar_field;
                using goldilocks64_base_field = vshim::field<vshim::goldilocks_tag>;
                using goldilocks64 = goldilocks64_base_field;
                template<std::size_t Version>
                using bls12_base_field = vshim::field<vshim::bls12_fq_tag>;
                template<std::size_t Version>
                using bls12_scalar_field = vshim::field<vshim::bls12_fr_tag>;
                template<std::size_t Version>
                using bls12_fr = bls12_scalar_field<Version>;
                template<std::size_t Version>
                using bls12_fq = bls12_base_field<Version>;
                template<std::size_t Version>
                using alt_bn128_scalar_field = vshim::field<vshim::bn254_fr_tag>;
                template<std::size_t Version>
                using alt_bn128_base_field = vshim::field<vshim::bn254_fq_tag>;
                template<typename F>
                struct arithmetic_params;
            }    // namespace fields
            template<typename F>
            typename F::value_type random_element() {
                return vshim::random_from<F>(vshim::global_engine());
            }
        }    // namespace algebra
        namespace random {
            template<typename Field>
            struct algebraic_engine {
                std::mt19937_64 g;
                algebraic_engine() : g(0x1234567) {
                }
                template<typename S>
                explicit algebraic_engine(const S &s) {
                    seed(s);
                }
                void seed(std::uint64_t s) {
                    g.seed(s);
                }
                template<typename S, typename = std::enable_if_t<!std::is_integral<S>::value>>
                void seed(const S &s) {
                    (void)s;
                    g.seed(0x7654321);
                }
                typename Field::value_type operator()() {
                    return vshim::random_from<Field>(g);
                }
            };
            template<typename Field>
            struct algebraic_random_device {
                typename Field::value_type operator()() {
                    return vshim::random_from<Field>(vshim::global_engine());
                }
            };
        }    // namespace random
    }    // namespace crypto3
}    // namespace nil
