#pragma once
#include <vshim/field.hpp>
namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename V>
            struct polynomial : std::vector<V> {
                using std::vector<V>::vector;
                V evaluate(const V &x) const {
                    V r = V::zero();
                    for (std::size_t i = this->size(); i-- > 0;) {
                        r = r * x + (*this)[i];
                    }
                    return r;
                }
            };
            /// Coefficients of the polynomial through the given points.
            template<typename Points>
            auto lagrange_interpolation(const Points &pts) {
                using V = std::decay_t<decltype(pts[0].first)>;
                polynomial<V> r(pts.size(), V::zero());
                for (std::size_t i = 0; i < pts.size(); i++) {
                    polynomial<V> t(1, pts[i].second);
                    for (std::size_t j = 0; j < pts.size(); j++) {
                        if (i == j) {
                            continue;
                        }
                        V c = (pts[i].first - pts[j].first).inversed();
                        polynomial<V> n(t.size() + 1, V::zero());
                        for (std::size_t k = 0; k < t.size(); k++) {
                            n[k + 1] += t[k] * c;
                            n[k] -= t[k] * c * pts[j].first;
                        }
                        t = n;
                    }
                    for (std::size_t k = 0; k < t.size(); k++) {
                        r[k] += t[k];
                    }
                }
                return r;
            }
        }    // namespace math
    }        // namespace crypto3
}    // namespace nil
