// Polynomial expressions over circuit variables.
#pragma once
#include <vshim/field.hpp>
#include <boost/variant.hpp>
#include <boost/variant/recursive_wrapper.hpp>
#include <boost/variant/static_visitor.hpp>
#include <boost/functional/hash.hpp>

namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename VariableType>
            class expression;

            enum class ArithmeticOperator : std::uint8_t { ADD = 0, SUB = 1, MULT = 2 };

            template<typename VariableType>
            class term {
            public:
                using variable_type = VariableType;
                using assignment_type = typename VariableType::assignment_type;

                term() : coeff(assignment_type::one()) {
                }
                term(const VariableType &var) : vars({var}), coeff(assignment_type::one()) {
                }
                term(const assignment_type &c) : coeff(c) {
                }
                term(std::vector<VariableType> v, const assignment_type &c) : vars(std::move(v)), coeff(c) {
                    if (coeff.is_zero()) {
                        vars.clear();
                    }
                }
                explicit term(std::vector<VariableType> v) : vars(std::move(v)), coeff(assignment_type::one()) {
                }
                bool is_zero() const {
                    return coeff.is_zero();
                }
                const std::vector<VariableType> &get_vars() const {
                    return vars;
                }
                const assignment_type &get_coeff() const {
                    return coeff;
                }
                term operator*(const term &o) const {
                    std::vector<VariableType> v = vars;
                    v.insert(v.end(), o.vars.begin(), o.vars.end());
                    return term(std::move(v), coeff * o.coeff);
                }
                term pow(std::size_t power) const {
                    term r(assignment_type::one());
                    for (std::size_t i = 0; i < power; i++) {
                        r = r * *this;
                    }
                    return r;
                }
                term operator-() const {
                    return term(vars, -coeff);
                }
                bool operator==(const term &o) const {
                    if (coeff != o.coeff || vars.size() != o.vars.size()) {
                        return false;
                    }
                    std::vector<VariableType> a = vars, b = o.vars;
                    std::sort(a.begin(), a.end());
                    std::sort(b.begin(), b.end());
                    return a == b;
                }
                bool operator!=(const term &o) const {
                    return !(*this == o);
                }

            private:
                std::vector<VariableType> vars;
                assignment_type coeff;
            };

            template<typename VariableType>
            class pow_operation {
            public:
                using variable_type = VariableType;
                pow_operation(const expression<VariableType> &e, int p) : expr(e), power(p) {
                }
                const expression<VariableType> &get_expr() const {
                    return expr.get();
                }
                int get_power() const {
                    return power;
                }
                bool operator==(const pow_operation &o) const {
                    return power == o.power && get_expr() == o.get_expr();
                }

            private:
                boost::recursive_wrapper<expression<VariableType>> expr;
                int power;
            };

            template<typename VariableType>
            class binary_arithmetic_operation {
            public:
                using variable_type = VariableType;
                using ArithmeticOperatorType = ArithmeticOperator;
                binary_arithmetic_operation(const expression<VariableType> &l, const expression<VariableType> &r,
                                            ArithmeticOperator o) :
                    left(l),
                    right(r), op(o) {
                }
                const expression<VariableType> &get_expr_left() const {
                    return left.get();
                }
                const expression<VariableType> &get_expr_right() const {
                    return right.get();
                }
                ArithmeticOperator get_op() const {
                    return op;
                }
                bool operator==(const binary_arithmetic_operation &o) const {
                    return op == o.op && get_expr_left() == o.get_expr_left() && get_expr_right() == o.get_expr_right();
                }

            private:
                boost::recursive_wrapper<expression<VariableType>> left, right;
                ArithmeticOperator op;
            };

            template<typename VariableType>
            class expression {
            public:
                using variable_type = VariableType;
                using assignment_type = typename VariableType::assignment_type;
                using term_type = term<VariableType>;
                using expr_type = boost::variant<term<VariableType>, pow_operation<VariableType>,
                                                 binary_arithmetic_operation<VariableType>>;

                expression() : expr(term_type(assignment_type::zero())) {
                }
                expression(const term_type &t) : expr(t) {
                }
                expression(const pow_operation<VariableType> &p) : expr(p) {
                }
                expression(const binary_arithmetic_operation<VariableType> &b) : expr(b) {
                }
                expression(const VariableType &v) : expr(term_type(v)) {
                }
                expression(const assignment_type &c) : expr(term_type(c)) {
                }
                template<typename T, typename = std::enable_if_t<std::is_integral<T>::value ||
                                                                 vshim::is_mp_number<T>::value>>
                expression(const T &c) : expr(term_type(assignment_type(c))) {
                }
                const expr_type &get_expr() const {
                    return expr;
                }
                bool is_empty() const {
                    const term_type *t = boost::get<term_type>(&expr);
                    return t != nullptr && t->is_zero();
                }
                expression pow(int power) const {
                    return pow_operation<VariableType>(*this, power);
                }
                expression &operator+=(const expression &o);
                expression &operator-=(const expression &o);
                expression &operator*=(const expression &o);
                expression operator-() const {
                    if (const term_type *t = boost::get<term_type>(&expr)) {
                        return expression(-*t);
                    }
                    return binary_arithmetic_operation<VariableType>(expression(assignment_type(-assignment_type::one())), *this,
                                                                     ArithmeticOperator::MULT);
                }
                // Equality of polynomials, decided at one fixed pseudo-random point.
                bool operator==(const expression &o) const {
                    return probe() == o.probe();
                }
                bool operator!=(const expression &o) const {
                    return !(*this == o);
                }
                assignment_type probe() const;

            private:
                expr_type expr;
            };

            template<typename V>
            std::ostream &operator<<(std::ostream &os, const term<V> &t) {
                bool first = true;
                if (!t.get_coeff().is_one() || t.get_vars().empty()) {
                    os << t.get_coeff();
                    first = false;
                }
                for (const auto &v : t.get_vars()) {
                    if (!first) {
                        os << "*";
                    }
                    os << v;
                    first = false;
                }
                return os;
            }
            template<typename V>
            std::ostream &operator<<(std::ostream &os, const expression<V> &e);
            template<typename V>
            std::ostream &operator<<(std::ostream &os, const pow_operation<V> &p) {
                return os << "(" << p.get_expr() << ")^" << p.get_power();
            }
            template<typename V>
            std::ostream &operator<<(std::ostream &os, const binary_arithmetic_operation<V> &b) {
                static const char *names[] = {" + ", " - ", " * "};
                return os << "(" << b.get_expr_left() << names[(int)b.get_op()] << b.get_expr_right() << ")";
            }
            template<typename V>
            std::ostream &operator<<(std::ostream &os, const expression<V> &e) {
                if (auto *t = boost::get<term<V>>(&e.get_expr())) {
                    return os << *t;
                }
                if (auto *p = boost::get<pow_operation<V>>(&e.get_expr())) {
                    return os << *p;
                }
                return os << *boost::get<binary_arithmetic_operation<V>>(&e.get_expr());
            }

            template<typename VariableType>
            class expression_for_each_variable_visitor : public boost::static_visitor<void> {
            public:
                explicit expression_for_each_variable_visitor(std::function<void(const VariableType &)> cb) :
                    callback(cb) {
                }
                void visit(const expression<VariableType> &e) {
                    boost::apply_visitor(*this, e.get_expr());
                }
                void operator()(const term<VariableType> &t) {
                    for (const auto &v : t.get_vars()) {
                        callback(v);
                    }
                }
                void operator()(const pow_operation<VariableType> &p) {
                    visit(p.get_expr());
                }
                void operator()(const binary_arithmetic_operation<VariableType> &b) {
                    visit(b.get_expr_left());
                    visit(b.get_expr_right());
                }

            private:
                std::function<void(const VariableType &)> callback;
            };

            template<typename VariableType>
            class expression_evaluator : public boost::static_visitor<typename VariableType::assignment_type> {
            public:
                using value_type = typename VariableType::assignment_type;
                expression_evaluator(const expression<VariableType> &e,
                                     std::function<value_type(const VariableType &)> get_var_value) :
                    expr(e),
                    get(get_var_value) {
                }
                value_type evaluate() {
                    return visit(expr);
                }
                value_type visit(const expression<VariableType> &e) {
                    return boost::apply_visitor(*this, e.get_expr());
                }
                value_type operator()(const term<VariableType> &t) {
                    value_type r = t.get_coeff();
                    for (const auto &v : t.get_vars()) {
                        r *= get(v);
                    }
                    return r;
                }
                value_type operator()(const pow_operation<VariableType> &p) {
                    return visit(p.get_expr()).pow((unsigned long)p.get_power());
                }
                value_type operator()(const binary_arithmetic_operation<VariableType> &b) {
                    value_type l = visit(b.get_expr_left()), r = visit(b.get_expr_right());
                    switch (b.get_op()) {
                        case ArithmeticOperator::ADD:
                            return l + r;
                        case ArithmeticOperator::SUB:
                            return l - r;
                        default:
                            return l * r;
                    }
                }

            private:
                const expression<VariableType> &expr;
                std::function<value_type(const VariableType &)> get;
            };

            template<typename VariableType>
            typename VariableType::assignment_type expression<VariableType>::probe() const {
                expression_evaluator<VariableType> ev(*this, [](const VariableType &v) {
                    std::mt19937_64 g(std::hash<VariableType>()(v));
                    return vshim::random_from<typename assignment_type::field_type>(g);
                });
                return ev.evaluate();
            }

            template<typename VariableType>
            class expression_max_degree_visitor : public boost::static_visitor<std::size_t> {
            public:
                std::size_t compute_max_degree(const expression<VariableType> &e) {
                    return boost::apply_visitor(*this, e.get_expr());
                }
                std::size_t operator()(const term<VariableType> &t) {
                    return t.get_vars().size();
                }
                std::size_t operator()(const pow_operation<VariableType> &p) {
                    return compute_max_degree(p.get_expr()) * p.get_power();
                }
                std::size_t operator()(const binary_arithmetic_operation<VariableType> &b) {
                    std::size_t l = compute_max_degree(b.get_expr_left()), r = compute_max_degree(b.get_expr_right());
                    return b.get_op() == ArithmeticOperator::MULT ? l + r : std::max(l, r);
                }
            };
        }    // namespace math
    }        // namespace crypto3
}    // namespace nil
