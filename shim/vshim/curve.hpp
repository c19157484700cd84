// Elliptic curve groups in affine form behind the interface the repository uses.
#pragma once
#include <vshim/field.hpp>

namespace vshim {
    /// y^2 = x^3 + b, point at infinity written (0, 0).
    template<typename Params>
    struct weierstrass_point {
        using point_tag = void;
        using field_type = typename Params::base_field_type;
        using F = typename field_type::value_type;
        F X, Y;
        weierstrass_point() = default;
        weierstrass_point(const F &x, const F &y) : X(x), Y(y) {
        }
        static weierstrass_point zero() {
            return weierstrass_point();
        }
        static weierstrass_point one() {
            return weierstrass_point(Params::gen_x(), Params::gen_y());
        }
        bool is_zero() const {
            return X.is_zero() && Y.is_zero();
        }
        bool is_well_formed() const {
            return is_zero() || Y * Y == X * X * X + F(Params::b);
        }
        bool operator==(const weierstrass_point &o) const {
            return X == o.X && Y == o.Y;
        }
        bool operator!=(const weierstrass_point &o) const {
            return !(*this == o);
        }
        weierstrass_point operator-() const {
            return weierstrass_point(X, -Y);
        }
        weierstrass_point doubled() const {
            if (is_zero() || Y.is_zero()) {
                return zero();
            }
            F l = F(3u) * X * X / (F(2u) * Y);
            F x = l * l - X - X;
            return weierstrass_point(x, l * (X - x) - Y);
        }
        weierstrass_point operator+(const weierstrass_point &o) const {
            if (is_zero()) {
                return o;
            }
            if (o.is_zero()) {
                return *this;
            }
            if (X == o.X) {
                return Y == o.Y ? doubled() : zero();
            }
            F l = (o.Y - Y) / (o.X - X);
            F x = l * l - X - o.X;
            return weierstrass_point(x, l * (X - x) - Y);
        }
        weierstrass_point operator-(const weierstrass_point &o) const {
            return *this + -o;
        }
        weierstrass_point &operator+=(const weierstrass_point &o) {
            return *this = *this + o;
        }
        const weierstrass_point &to_affine() const {
            return *this;
        }
        template<typename N>
        weierstrass_point mul_int(N n) const {
            weierstrass_point r, b = *this;
            while (n != 0) {
                if (static_cast<unsigned>(n & 1)) {
                    r = r + b;
                }
                b = b.doubled();
                n = N(n >> 1);
            }
            return r;
        }
    };

    /// a x^2 + y^2 = 1 + d x^2 y^2.
    template<typename Params>
    struct edwards_point {
        using point_tag = void;
        using field_type = typename Params::base_field_type;
        using F = typename field_type::value_type;
        F X, Y;
        edwards_point() : X(0u), Y(1u) {
        }
        edwards_point(const F &x, const F &y) : X(x), Y(y) {
        }
        static edwards_point zero() {
            return edwards_point();
        }
        static edwards_point one() {
            return edwards_point(Params::gen_x(), Params::gen_y());
        }
        bool is_zero() const {
            return X.is_zero() && Y.is_one();
        }
        bool is_well_formed() const {
            F x2 = X * X, y2 = Y * Y;
            return Params::a() * x2 + y2 == F::one() + Params::d() * x2 * y2;
        }
        bool operator==(const edwards_point &o) const {
            return X == o.X && Y == o.Y;
        }
        bool operator!=(const edwards_point &o) const {
            return !(*this == o);
        }
        edwards_point operator-() const {
            return edwards_point(-X, Y);
        }
        edwards_point operator+(const edwards_point &o) const {
            F t = Params::d() * X * o.X * Y * o.Y;
            return edwards_point((X * o.Y + o.X * Y) / (F::one() + t),
                                 (Y * o.Y - Params::a() * X * o.X) / (F::one() - t));
        }
        edwards_point operator-(const edwards_point &o) const {
            return *this + -o;
        }
        edwards_point &operator+=(const edwards_point &o) {
            return *this = *this + o;
        }
        edwards_point doubled() const {
            return *this + *this;
        }
        const edwards_point &to_affine() const {
            return *this;
        }
        template<typename N>
        edwards_point mul_int(N n) const {
            edwards_point r, b = *this;
            while (n != 0) {
                if (static_cast<unsigned>(n & 1)) {
                    r = r + b;
                }
                b = b.doubled();
                n = N(n >> 1);
            }
            return r;
        }
    };

#define VSHIM_POINT_MUL(P)                                                                            \
    template<typename Params, typename Tag>                                                           \
    P<Params> operator*(const P<Params> &p, const element<Tag> &k) {                                  \
        return p.mul_int(k.data.integral());                                                          \
    }                                                                                                 \
    template<typename Params, typename Tag>                                                           \
    P<Params> operator*(const element<Tag> &k, const P<Params> &p) {                                  \
        return p.mul_int(k.data.integral());                                                          \
    }                                                                                                 \
    template<typename Params, typename N,                                                             \
             typename = std::enable_if_t<std::is_integral<N>::value || is_mp_number<N>::value>>       \
    P<Params> operator*(const P<Params> &p, const N &k) {                                             \
        if constexpr (std::numeric_limits<N>::is_signed) {                                                \
            if (k < 0) {                                                                              \
                return -p.mul_int(N(-k));                                                             \
            }                                                                                         \
        }                                                                                             \
        return p.mul_int(k);                                                                          \
    }                                                                                                 \
    template<typename Params, typename N,                                                             \
             typename = std::enable_if_t<std::is_integral<N>::value || is_mp_number<N>::value>>       \
    P<Params> operator*(const N &k, const P<Params> &p) {                                             \
        return p * k;                                                                                 \
    }
    VSHIM_POINT_MUL(weierstrass_point)
    VSHIM_POINT_MUL(edwards_point)
#undef VSHIM_POINT_MUL

    struct pallas_params {
        using base_field_type = field<pallas_base_tag>;
        using F = base_field_type::value_type;
        static constexpr unsigned b = 5;
        static F gen_x() {
            return -F::one();
        }
        static F gen_y() {
            return F(2u);
        }
    };
    struct vesta_params {
        using base_field_type = field<vesta_base_tag>;
        using F = base_field_type::value_type;
        static constexpr unsigned b = 5;
        static F gen_x() {
            return -F::one();
        }
        static F gen_y() {
            return F(2u);
        }
    };
    struct ed25519_params {
        using base_field_type = field<curve25519_base_tag>;
        using F = base_field_type::value_type;
        static F a() {
            return -F::one();
        }
        static F d() {
            return F(0x52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3_cppui_modular255);
        }
        static F gen_x() {
            return F(0x216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a_cppui_modular255);
        }
        static F gen_y() {
            return F(0x6666666666666666666666666666666666666666666666666666666666666658_cppui_modular255);
        }
    };
}    // namespace vshim

namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                namespace coordinates {
                    struct affine { };
                    struct projective { };
                    struct jacobian_with_a4_0 { };
                    struct jacobian { };
                    struct extended_with_a_minus_1 { };
                    struct inverted { };
                }    // namespace coordinates
                namespace forms {
                    struct short_weierstrass { };
                    struct twisted_edwards { };
                    struct edwards { };
                    struct montgomery { };
                }    // namespace forms
                template<typename Point, typename Base, typename Scalar>
                struct group {
                    using value_type = Point;
                    using field_type = Base;
                    using base_field_type = Base;
                    using scalar_field_type = Scalar;
                    using params_type = group;
                    using integral_type = typename Base::integral_type;
                    using extended_integral_type = typename Base::extended_integral_type;
                    static constexpr std::size_t modulus_bits = Base::modulus_bits;
                };
                struct pallas {
                    using base_field_type = fields::pallas_base_field;
                    using scalar_field_type = fields::pallas_scalar_field;
                    template<typename C = coordinates::affine, typename Form = forms::short_weierstrass>
                    using g1_type = group<vshim::weierstrass_point<vshim::pallas_params>, base_field_type, scalar_field_type>;
                };
                struct vesta {
                    using base_field_type = fields::vesta_base_field;
                    using scalar_field_type = fields::vesta_scalar_field;
                    template<typename C = coordinates::affine, typename Form = forms::short_weierstrass>
                    using g1_type = group<vshim::weierstrass_point<vshim::vesta_params>, base_field_type, scalar_field_type>;
                };
                struct ed25519 {
                    using base_field_type = fields::curve25519_base_field;
                    using scalar_field_type = fields::curve25519_scalar_field;
                    template<typename C = coordinates::affine, typename Form = forms::twisted_edwards>
                    using g1_type = group<vshim::edwards_point<vshim::ed25519_params>, base_field_type, scalar_field_type>;
                };
                using curve25519 = ed25519;
                template<std::size_t V>
                struct bls12 {
                    using base_field_type = fields::bls12_base_field<V>;
                    using scalar_field_type = fields::bls12_scalar_field<V>;
                };
                using bls12_381 = bls12<381>;
                template<std::size_t V>
                struct alt_bn128 {
                    using base_field_type = fields::alt_bn128_base_field<V>;
                    using scalar_field_type = fields::alt_bn128_scalar_field<V>;
                };
                using alt_bn128_254 = alt_bn128<254>;
                template<std::size_t V>
                struct mnt4 {
                    using base_field_type = vshim::field<vshim::mnt4_fq_tag>;
                    using scalar_field_type = vshim::field<vshim::mnt4_fr_tag>;
                };
                template<std::size_t V>
                struct mnt6 {
                    using base_field_type = vshim::field<vshim::mnt4_fr_tag>;
                    using scalar_field_type = vshim::field<vshim::mnt4_fq_tag>;
                };
            }    // namespace curves
        }        // namespace algebra
        namespace random {
            template<typename Params>
            vshim::weierstrass_point<Params> random_point();
        }
    }    // namespace crypto3
}    // namespace nil
