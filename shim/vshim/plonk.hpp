// PLONK arithmetization containers: variables, constraints, gates, lookup
// tables and the assignment table.
#pragma once
#include <vshim/expression.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename AssignmentType>
                class plonk_variable {
                public:
                    using assignment_type = AssignmentType;
                    enum column_type : std::uint8_t { witness, public_input, constant, selector, uninitialized };

                    std::size_t index;
                    std::int32_t rotation;
                    bool relative;
                    column_type type;

                    constexpr plonk_variable() : index(0), rotation(0), relative(false), type(uninitialized) {
                    }
                    constexpr plonk_variable(std::size_t i, std::int32_t r, bool rel = true, column_type t = witness) :
                        index(i), rotation(r), relative(rel), type(t) {
                    }
                    using expr = math::expression<plonk_variable>;
                    math::term<plonk_variable> pow(std::size_t p) const {
                        return math::term<plonk_variable>(*this).pow(p);
                    }
                    friend math::term<plonk_variable> operator^(const plonk_variable &v, std::size_t p) {
                        return v.pow(p);
                    }
                    expr operator-() const {
                        return -expr(*this);
                    }
                    constexpr bool operator==(const plonk_variable &o) const {
                        return index == o.index && rotation == o.rotation && relative == o.relative && type == o.type;
                    }
                    constexpr bool operator!=(const plonk_variable &o) const {
                        return !(*this == o);
                    }
                    bool operator<(const plonk_variable &o) const {
                        return std::tie(index, rotation, relative, type) <
                               std::tie(o.index, o.rotation, o.relative, o.type);
                    }
                };

                template<typename A>
                std::ostream &operator<<(std::ostream &os, const plonk_variable<A> &v) {
                    static const char *names[] = {"w", "pub", "c", "sel", "uninit"};
                    os << "var_" << names[v.type] << "_" << v.index << "_" << v.rotation;
                    if (!v.relative) {
                        os << "_abs";
                    }
                    return os;
                }

                template<typename AssignmentType>
                struct plonk_column_types;

                template<typename FieldType>
                using plonk_column = std::vector<typename FieldType::value_type>;

                template<typename FieldType>
                class plonk_assignment_table;

                template<typename FieldType>
                class plonk_constraint : public math::expression<plonk_variable<typename FieldType::value_type>> {
                public:
                    using variable_type = plonk_variable<typename FieldType::value_type>;
                    using VariableType = variable_type;
                    using base_type = math::expression<variable_type>;
                    using value_type = typename FieldType::value_type;

                    plonk_constraint() = default;
                    plonk_constraint(const base_type &e) : base_type(e) {
                    }
                    plonk_constraint(const math::term<variable_type> &e) : base_type(e) {
                    }
                    plonk_constraint(const variable_type &e) : base_type(e) {
                    }
                    plonk_constraint(const value_type &e) : base_type(e) {
                    }
                    template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
                    plonk_constraint(const T &e) : base_type(value_type(e)) {
                    }

                    value_type evaluate(std::size_t row_index, const plonk_assignment_table<FieldType> &t) const {
                        std::size_t rows = t.rows_amount();
                        math::expression_evaluator<variable_type> ev(*this, [&](const variable_type &v) -> value_type {
                            std::size_t r = (rows + row_index + v.rotation) % rows;
                            const plonk_column<FieldType> *c = nullptr;
                            switch (v.type) {
                                case variable_type::witness:
                                    c = &t.raw_witness(v.index);
                                    break;
                                case variable_type::public_input:
                                    c = &t.raw_public_input(v.index);
                                    break;
                                case variable_type::constant:
                                    c = &t.raw_constant(v.index);
                                    break;
                                case variable_type::selector:
                                    c = &t.raw_selector(v.index);
                                    break;
                                default:
                                    throw std::logic_error("constraint over an uninitialized variable");
                            }
                            // An unpadded column reads as zero, as it would after padding.
                            return r < c->size() ? (*c)[r] : value_type::zero();
                        });
                        return ev.evaluate();
                    }
                    template<typename Map, typename = typename Map::mapped_type>
                    value_type evaluate(const Map &m) const {
                        math::expression_evaluator<variable_type> ev(*this, [&](const variable_type &v) -> value_type {
                            return m.at(std::make_tuple(v.index, v.rotation, v.type));
                        });
                        return ev.evaluate();
                    }
                };

                template<typename FieldType, typename ConstraintType = plonk_constraint<FieldType>>
                struct plonk_gate {
                    using constraint_type = ConstraintType;
                    std::size_t selector_index;
                    std::vector<ConstraintType> constraints;
                    plonk_gate(std::size_t s, const ConstraintType &c) : selector_index(s), constraints({c}) {
                    }
                    plonk_gate(std::size_t s, const std::initializer_list<ConstraintType> &c) :
                        selector_index(s), constraints(c) {
                    }
                    plonk_gate(std::size_t s, const std::vector<ConstraintType> &c) : selector_index(s), constraints(c) {
                    }
                };

                template<typename FieldType>
                struct plonk_lookup_constraint {
                    using field_type = FieldType;
                    using variable_type = plonk_variable<typename FieldType::value_type>;
                    using term = plonk_constraint<FieldType>;
                    std::size_t table_id = 0;
                    std::vector<plonk_constraint<FieldType>> lookup_input;
                };

                template<typename FieldType, typename ConstraintType = plonk_lookup_constraint<FieldType>>
                struct plonk_lookup_gate {
                    using constraint_type = ConstraintType;
                    std::size_t tag_index;
                    std::vector<ConstraintType> constraints;
                    plonk_lookup_gate(std::size_t s, const ConstraintType &c) : tag_index(s), constraints({c}) {
                    }
                    plonk_lookup_gate(std::size_t s, const std::initializer_list<ConstraintType> &c) :
                        tag_index(s), constraints(c) {
                    }
                    plonk_lookup_gate(std::size_t s, const std::vector<ConstraintType> &c) :
                        tag_index(s), constraints(c) {
                    }
                };

                template<typename FieldType>
                struct plonk_lookup_table {
                    using variable_type = plonk_variable<typename FieldType::value_type>;
                    std::size_t tag_index;
                    std::size_t columns_number;
                    std::vector<std::vector<plonk_constraint<FieldType>>> lookup_options;
                    plonk_lookup_table() : tag_index(0), columns_number(0) {
                    }
                    plonk_lookup_table(std::size_t columns, std::size_t tag) : tag_index(tag), columns_number(columns) {
                    }
                    template<typename V>
                    void append_option(const std::vector<V> &option) {
                        std::vector<plonk_constraint<FieldType>> o(option.begin(), option.end());
                        assert(o.size() == columns_number);
                        lookup_options.push_back(o);
                    }
                };

                template<typename FieldType>
                struct plonk_copy_constraint {
                    using variable_type = plonk_variable<typename FieldType::value_type>;
                    variable_type first, second;
                    plonk_copy_constraint() = default;
                    plonk_copy_constraint(const variable_type &a, const variable_type &b) : first(a), second(b) {
                    }
                    bool operator==(const plonk_copy_constraint &o) const {
                        return first == o.first && second == o.second;
                    }
                };

                template<typename FieldType>
                struct plonk_table_description {
                    std::size_t witness_columns = 0;
                    std::size_t public_input_columns = 0;
                    std::size_t constant_columns = 0;
                    std::size_t selector_columns = 0;
                    std::size_t usable_rows_amount = 0;
                    std::size_t rows_amount = 0;
                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s) :
                        witness_columns(w), public_input_columns(p), constant_columns(c), selector_columns(s) {
                    }
                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s, std::size_t u,
                                            std::size_t r) :
                        witness_columns(w),
                        public_input_columns(p), constant_columns(c), selector_columns(s), usable_rows_amount(u),
                        rows_amount(r) {
                    }
                    std::size_t table_width() const {
                        return witness_columns + public_input_columns + constant_columns + selector_columns;
                    }
                };

                template<typename FieldType>
                struct lookup_subtable_definition {
                    std::vector<std::size_t> column_indices;
                    std::size_t begin;
                    std::size_t end;
                };

                template<typename FieldType>
                class lookup_table_definition {
                protected:
                    std::vector<std::vector<typename FieldType::value_type>> _table;

                public:
                    std::string table_name;
                    std::map<std::string, lookup_subtable_definition<FieldType>> subtables;

                    lookup_table_definition(const std::string table_name) : table_name(table_name) {
                    }
                    virtual void generate() = 0;
                    virtual std::size_t get_columns_number() = 0;
                    virtual std::size_t get_rows_number() = 0;
                    const std::vector<std::vector<typename FieldType::value_type>> &get_table() {
                        if (_table.empty()) {
                            generate();
                        }
                        return _table;
                    }
                    virtual ~lookup_table_definition() {
                    }
                };

                template<typename FieldType>
                class filled_lookup_table_definition : public lookup_table_definition<FieldType> {
                public:
                    filled_lookup_table_definition(lookup_table_definition<FieldType> &other) :
                        lookup_table_definition<FieldType>(other.table_name) {
                        this->_table = other.get_table();
                    }
                    void generate() override {
                    }
                    std::size_t get_columns_number() override {
                        return this->_table.size();
                    }
                    std::size_t get_rows_number() override {
                        return this->_table[0].size();
                    }
                };

                template<typename FieldType>
                class dynamic_table_definition {
                public:
                    std::string table_name;
                    plonk_lookup_table<FieldType> lookup_table;
                    bool defined = false;
                    dynamic_table_definition() = default;
                    dynamic_table_definition(const std::string &n) : table_name(n) {
                    }
                    void define(const plonk_lookup_table<FieldType> &t) {
                        lookup_table = t;
                        defined = true;
                    }
                    bool is_defined() const {
                        return defined;
                    }
                };

                template<typename FieldType>
                class plonk_constraint_system {
                public:
                    using field_type = FieldType;
                    using variable_type = plonk_variable<typename FieldType::value_type>;
                    using gates_container_type = std::vector<plonk_gate<FieldType, plonk_constraint<FieldType>>>;
                    using lookup_gates_container_type =
                        std::vector<plonk_lookup_gate<FieldType, plonk_lookup_constraint<FieldType>>>;
                    using copy_constraints_container_type = std::vector<plonk_copy_constraint<FieldType>>;
                    using lookup_table_type = plonk_lookup_table<FieldType>;
                    using lookup_tables_type = std::vector<lookup_table_type>;

                protected:
                    gates_container_type _gates;
                    copy_constraints_container_type _copy_constraints;
                    lookup_gates_container_type _lookup_gates;
                    lookup_tables_type _lookup_tables;

                public:
                    plonk_constraint_system() = default;
                    virtual ~plonk_constraint_system() {
                    }
                    virtual std::size_t num_gates() const {
                        return _gates.size();
                    }
                    virtual std::size_t num_lookup_gates() const {
                        return _lookup_gates.size();
                    }
                    virtual std::size_t num_lookup_tables() const {
                        return _lookup_tables.size();
                    }
                    virtual const gates_container_type &gates() const {
                        return _gates;
                    }
                    virtual const copy_constraints_container_type &copy_constraints() const {
                        return _copy_constraints;
                    }
                    virtual copy_constraints_container_type &mutable_copy_constraints() {
                        return _copy_constraints;
                    }
                    virtual const lookup_gates_container_type &lookup_gates() const {
                        return _lookup_gates;
                    }
                    virtual const lookup_tables_type &lookup_tables() const {
                        return _lookup_tables;
                    }
                    virtual const lookup_table_type &lookup_table(std::size_t table_id) const {
                        return _lookup_tables.at(table_id);
                    }
                    virtual void add_lookup_table(const lookup_table_type &t) {
                        _lookup_tables.push_back(t);
                    }
                };

                template<typename FieldType>
                struct plonk_private_table {
                    std::vector<plonk_column<FieldType>> _witnesses;
                    plonk_private_table() = default;
                    plonk_private_table(const std::vector<plonk_column<FieldType>> &w) : _witnesses(w) {
                    }
                    std::uint32_t witnesses_amount() const {
                        return _witnesses.size();
                    }
                    std::uint32_t witness_column_size(std::uint32_t i) const {
                        return _witnesses.at(i).size();
                    }
                    const plonk_column<FieldType> &witness(std::uint32_t i) const {
                        return _witnesses.at(i);
                    }
                    const std::vector<plonk_column<FieldType>> &witnesses() const {
                        return _witnesses;
                    }
                };

                template<typename FieldType>
                struct plonk_public_table {
                    std::vector<plonk_column<FieldType>> _public_inputs, _constants, _selectors;
                    plonk_public_table() = default;
                    plonk_public_table(const std::vector<plonk_column<FieldType>> &p,
                                       const std::vector<plonk_column<FieldType>> &c,
                                       const std::vector<plonk_column<FieldType>> &s) :
                        _public_inputs(p),
                        _constants(c), _selectors(s) {
                    }
                    std::uint32_t public_inputs_amount() const {
                        return _public_inputs.size();
                    }
                    std::uint32_t public_input_column_size(std::uint32_t i) const {
                        return _public_inputs.at(i).size();
                    }
                    const plonk_column<FieldType> &public_input(std::uint32_t i) const {
                        return _public_inputs.at(i);
                    }
                    std::uint32_t constants_amount() const {
                        return _constants.size();
                    }
                    std::uint32_t constant_column_size(std::uint32_t i) const {
                        return _constants.at(i).size();
                    }
                    const plonk_column<FieldType> &constant(std::uint32_t i) const {
                        return _constants.at(i);
                    }
                    std::uint32_t selectors_amount() const {
                        return _selectors.size();
                    }
                    std::uint32_t selector_column_size(std::uint32_t i) const {
                        return _selectors.at(i).size();
                    }
                    const plonk_column<FieldType> &selector(std::uint32_t i) const {
                        return _selectors.at(i);
                    }
                    const std::vector<plonk_column<FieldType>> &public_inputs() const {
                        return _public_inputs;
                    }
                    const std::vector<plonk_column<FieldType>> &constants() const {
                        return _constants;
                    }
                    const std::vector<plonk_column<FieldType>> &selectors() const {
                        return _selectors;
                    }
                };

                template<typename FieldType>
                class plonk_assignment_table {
                public:
                    using field_type = FieldType;
                    using column_type = plonk_column<FieldType>;
                    using private_table_type = plonk_private_table<FieldType>;
                    using public_table_type = plonk_public_table<FieldType>;

                    private_table_type _private_table;
                    public_table_type _public_table;

                    plonk_assignment_table() = default;
                    plonk_assignment_table(std::size_t w, std::size_t p, std::size_t c, std::size_t s) {
                        _private_table._witnesses.resize(w);
                        _public_table._public_inputs.resize(p);
                        _public_table._constants.resize(c);
                        _public_table._selectors.resize(s);
                    }
                    plonk_assignment_table(std::shared_ptr<private_table_type> a, std::shared_ptr<public_table_type> b) :
                        _private_table(*a), _public_table(*b) {
                    }
                    virtual ~plonk_assignment_table() {
                    }

                    // Plain accessors used by the stand-in itself; out-of-range columns are errors.
                    const column_type &raw_witness(std::size_t i) const {
                        return _private_table._witnesses.at(i);
                    }
                    const column_type &raw_public_input(std::size_t i) const {
                        return _public_table._public_inputs.at(i);
                    }
                    const column_type &raw_constant(std::size_t i) const {
                        return _public_table._constants.at(i);
                    }
                    const column_type &raw_selector(std::size_t i) const {
                        return _public_table._selectors.at(i);
                    }

                    virtual const column_type &witness(std::uint32_t i) const {
                        return raw_witness(i);
                    }
                    virtual const column_type &public_input(std::uint32_t i) const {
                        return raw_public_input(i);
                    }
                    virtual const column_type &constant(std::uint32_t i) const {
                        return raw_constant(i);
                    }
                    virtual const column_type &selector(std::uint32_t i) const {
                        return raw_selector(i);
                    }
                    const std::vector<column_type> &witnesses() const {
                        return _private_table._witnesses;
                    }
                    const std::vector<column_type> &public_inputs() const {
                        return _public_table._public_inputs;
                    }
                    const std::vector<column_type> &constants() const {
                        return _public_table._constants;
                    }
                    const std::vector<column_type> &selectors() const {
                        return _public_table._selectors;
                    }
                    virtual std::uint32_t witnesses_amount() const {
                        return _private_table._witnesses.size();
                    }
                    virtual std::uint32_t public_inputs_amount() const {
                        return _public_table._public_inputs.size();
                    }
                    virtual std::uint32_t constants_amount() const {
                        return _public_table._constants.size();
                    }
                    virtual std::uint32_t selectors_amount() const {
                        return _public_table._selectors.size();
                    }
                    virtual std::uint32_t witness_column_size(std::uint32_t i) const {
                        return raw_witness(i).size();
                    }
                    virtual std::uint32_t public_input_column_size(std::uint32_t i) const {
                        return raw_public_input(i).size();
                    }
                    virtual std::uint32_t constant_column_size(std::uint32_t i) const {
                        return raw_constant(i).size();
                    }
                    virtual std::uint32_t selector_column_size(std::uint32_t i) const {
                        return raw_selector(i).size();
                    }
                    virtual std::uint32_t rows_amount() const {
                        std::size_t r = 0;
                        for (auto *g : {&_private_table._witnesses, &_public_table._public_inputs,
                                        &_public_table._constants, &_public_table._selectors}) {
                            for (auto &c : *g) {
                                r = std::max(r, c.size());
                            }
                        }
                        return r;
                    }
                    virtual void fill_selector(std::uint32_t i, const column_type &c) {
                        _public_table._selectors.at(i) = c;
                    }
                    virtual void fill_constant(std::uint32_t i, const column_type &c) {
                        _public_table._constants.at(i) = c;
                    }
                    virtual void resize_witnesses(std::uint32_t n) {
                        _private_table._witnesses.resize(n);
                    }
                    virtual void resize_public_inputs(std::uint32_t n) {
                        _public_table._public_inputs.resize(n);
                    }
                    virtual void resize_constants(std::uint32_t n) {
                        _public_table._constants.resize(n);
                    }
                    virtual void resize_selectors(std::uint32_t n) {
                        _public_table._selectors.resize(n);
                    }
                    const private_table_type &private_table() const {
                        return _private_table;
                    }
                    const public_table_type &public_table() const {
                        return _public_table;
                    }
                    private_table_type move_private_table() const {
                        return _private_table;
                    }
                    public_table_type move_public_table() const {
                        return _public_table;
                    }
                };
                template<typename FieldType>
                using plonk_table = plonk_assignment_table<FieldType>;

                template<typename Table>
                std::uint32_t basic_padding(Table &t) {
                    std::uint32_t rows = t.rows_amount(), padded = 8;
                    while (padded < rows) {
                        padded *= 2;
                    }
                    if (padded - rows < 2) {
                        padded *= 2;
                    }
                    for (auto *g : {&t._private_table._witnesses, &t._public_table._public_inputs,
                                    &t._public_table._constants, &t._public_table._selectors}) {
                        for (auto &c : *g) {
                            c.resize(padded);
                        }
                    }
                    return padded;
                }

                /// Place the reserved tables into the given constant columns, one selector per
                /// subtable, and hand the constraint system their options in table id order.
                template<typename FieldType, typename Indices, typename Bp, typename Assignment>
                std::size_t pack_lookup_tables_horizontal(
                    const Indices &indices,
                    const std::map<std::string, std::shared_ptr<lookup_table_definition<FieldType>>> &tables,
                    const std::map<std::string, std::shared_ptr<dynamic_table_definition<FieldType>>> &dynamic_tables,
                    Bp &bp, Assignment &assignment, const std::vector<std::size_t> &constant_columns_ids,
                    std::size_t cur_selector_id, std::size_t usable_rows_amount,
                    std::size_t /* max_usable_rows */ = 524288) {
                    using variable = plonk_variable<typename FieldType::value_type>;
                    std::vector<plonk_lookup_table<FieldType>> out(indices.size());
                    for (auto &item : dynamic_tables) {
                        out.at(indices.at(item.first) - 1) = item.second->lookup_table;
                    }
                    // row 0 stays empty
                    std::vector<plonk_column<FieldType>> cols(
                        constant_columns_ids.size(), plonk_column<FieldType>(1, FieldType::value_type::zero()));
                    std::size_t column = 0;
                    for (auto &item : tables) {
                        auto &content = item.second->get_table();
                        std::size_t rows = content[0].size();
                        if (content.size() > cols.size()) {
                            throw std::length_error("lookup table is wider than the columns given");
                        }
                        if (column + content.size() > cols.size()) {
                            column = 0;
                        }
                        std::size_t start = 1;
                        for (std::size_t c = 0; c < content.size(); c++) {
                            start = std::max(start, cols[column + c].size());
                        }
                        for (std::size_t c = 0; c < content.size(); c++) {
                            cols[column + c].resize(start);
                            cols[column + c].insert(cols[column + c].end(), content[c].begin(), content[c].end());
                        }
                        usable_rows_amount = std::max(usable_rows_amount, start + rows);
                        for (auto &sub : item.second->subtables) {
                            auto it = indices.find(item.first + "/" + sub.first);
                            if (it == indices.end()) {
                                continue;
                            }
                            plonk_column<FieldType> sel(start + rows, FieldType::value_type::zero());
                            for (std::size_t r = sub.second.begin; r <= sub.second.end && r < rows; r++) {
                                sel[start + r] = FieldType::value_type::one();
                            }
                            assignment.fill_selector(cur_selector_id, sel);
                            plonk_lookup_table<FieldType> t(sub.second.column_indices.size(), cur_selector_id);
                            std::vector<variable> option;
                            for (auto ci : sub.second.column_indices) {
                                option.emplace_back(constant_columns_ids.at(column + ci), 0, true,
                                                    variable::column_type::constant);
                            }
                            t.append_option(option);
                            out.at(it->second - 1) = t;
                            cur_selector_id++;
                        }
                        column += content.size();
                    }
                    for (std::size_t i = 0; i < cols.size(); i++) {
                        assignment.fill_constant(constant_columns_ids[i], cols[i]);
                    }
                    for (auto &t : out) {
                        bp.add_lookup_table(t);
                    }
                    return usable_rows_amount;
                }
                template<typename Field>
                class r1cs_constraint_system;
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil

namespace std {
    template<typename A>
    struct hash<nil::crypto3::zk::snark::plonk_variable<A>> {
        std::size_t operator()(const nil::crypto3::zk::snark::plonk_variable<A> &v) const {
            std::size_t h = 0;
            boost::hash_combine(h, v.index);
            boost::hash_combine(h, v.rotation);
            boost::hash_combine(h, v.relative);
            boost::hash_combine(h, (int)v.type);
            return h;
        }
    };
}    // namespace std

// Arithmetic between variables, terms, constants and expressions. Defined in the
// variable's namespace and in math so that argument-dependent lookup finds them.
namespace vshim {
    template<typename T>
    struct expr_operand {
        static constexpr bool value = false;
    };
    template<typename A>
    struct expr_operand<nil::crypto3::zk::snark::plonk_variable<A>> {
        static constexpr bool value = true;
        using type = nil::crypto3::math::expression<nil::crypto3::zk::snark::plonk_variable<A>>;
    };
    template<typename V>
    struct expr_operand<nil::crypto3::math::term<V>> {
        static constexpr bool value = true;
        using type = nil::crypto3::math::expression<V>;
    };
    template<typename V>
    struct expr_operand<nil::crypto3::math::expression<V>> {
        static constexpr bool value = true;
        using type = nil::crypto3::math::expression<V>;
    };
    template<typename F>
    struct expr_operand<nil::crypto3::zk::snark::plonk_constraint<F>> {
        static constexpr bool value = true;
        using type = typename nil::crypto3::zk::snark::plonk_constraint<F>::base_type;
    };
    template<typename T>
    struct scalar_operand {
        static constexpr bool value = std::is_integral<T>::value || is_mp_number<T>::value;
    };
    template<typename Tag>
    struct scalar_operand<element<Tag>> {
        static constexpr bool value = true;
    };
    template<typename Tag>
    struct scalar_operand<modular<Tag>> {
        static constexpr bool value = true;
    };
    // Two expression operands that are not both plain expressions, or one of them with a scalar.
    template<typename A, typename B, typename = void>
    struct expr_result { };
    template<typename A, typename B>
    struct expr_result<A, B, std::enable_if_t<expr_operand<A>::value && expr_operand<B>::value>> {
        using type = typename expr_operand<A>::type;
    };
    template<typename A, typename B>
    struct expr_result<A, B, std::enable_if_t<expr_operand<A>::value && scalar_operand<B>::value>> {
        using type = typename expr_operand<A>::type;
    };
    template<typename A, typename B>
    struct expr_result<A, B, std::enable_if_t<scalar_operand<A>::value && expr_operand<B>::value>> {
        using type = typename expr_operand<B>::type;
    };
    template<typename E, typename T>
    E lift(const T &x) {
        if constexpr (scalar_operand<T>::value) {
            return E(typename E::assignment_type(x));
        } else {
            return E(x);
        }
    }
}    // namespace vshim

#define VSHIM_OPS                                                                                    \
    template<typename A, typename B, typename E = typename vshim::expr_result<A, B>::type>           \
    E operator+(const A &a, const B &b) {                                                            \
        E x = vshim::lift<E>(a), y = vshim::lift<E>(b);                                              \
        return vshim::combine(x, y, nil::crypto3::math::ArithmeticOperator::ADD);                    \
    }                                                                                                \
    template<typename A, typename B, typename E = typename vshim::expr_result<A, B>::type>           \
    E operator-(const A &a, const B &b) {                                                            \
        E x = vshim::lift<E>(a), y = vshim::lift<E>(b);                                              \
        return vshim::combine(x, y, nil::crypto3::math::ArithmeticOperator::SUB);                    \
    }                                                                                                \
    template<typename A, typename B, typename E = typename vshim::expr_result<A, B>::type>           \
    E operator*(const A &a, const B &b) {                                                            \
        E x = vshim::lift<E>(a), y = vshim::lift<E>(b);                                              \
        return vshim::combine(x, y, nil::crypto3::math::ArithmeticOperator::MULT);                   \
    }
namespace vshim {
    template<typename E>
    E combine(const E &a, const E &b, nil::crypto3::math::ArithmeticOperator op) {
        using T = typename E::term_type;
        using O = nil::crypto3::math::ArithmeticOperator;
        using V = typename E::variable_type;
        if (op == O::ADD && a.is_empty()) {
            return b;
        }
        if (op != O::MULT && b.is_empty()) {
            return a;
        }
        if (op == O::MULT) {
            const T *x = boost::get<T>(&a.get_expr()), *y = boost::get<T>(&b.get_expr());
            if (x && y) {
                return E(*x * *y);
            }
        }
        return E(nil::crypto3::math::binary_arithmetic_operation<V>(a, b, op));
    }
}    // namespace vshim
namespace nil {
    namespace crypto3 {
        namespace math {
            VSHIM_OPS
            template<typename V>
            expression<V> &expression<V>::operator+=(const expression<V> &o) {
                return *this = vshim::combine(*this, o, ArithmeticOperator::ADD);
            }
            template<typename V>
            expression<V> &expression<V>::operator-=(const expression<V> &o) {
                return *this = vshim::combine(*this, o, ArithmeticOperator::SUB);
            }
            template<typename V>
            expression<V> &expression<V>::operator*=(const expression<V> &o) {
                return *this = vshim::combine(*this, o, ArithmeticOperator::MULT);
            }
        }
        namespace zk {
            namespace snark {
                using math::operator+;
                using math::operator-;
                using math::operator*;
            }
        }    // namespace zk
    }        // namespace crypto3
}    // namespace nil
#undef VSHIM_OPS
