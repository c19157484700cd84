// EVM opcodes: the library's mapping between opcodes, bytes and names, and the lookup table built from
// them, compared with the instruction set of the Ethereum specification (Cancun) written down here.
#include "vf.hpp"
#include <vshim/all.hpp>
#include <nil/blueprint/zkevm/zkevm_opcodes.hpp>
#include <nil/blueprint/lookup_library.hpp>

using namespace nil::blueprint;
namespace fields = nil::crypto3::algebra::fields;

struct entry { zkevm_opcode op; const char *name; std::size_t byte; };
static const entry spec[] = {
    {zkevm_opcode::STOP, "STOP", 0x00},
    {zkevm_opcode::ADD, "ADD", 0x01},
    {zkevm_opcode::MUL, "MUL", 0x02},
    {zkevm_opcode::SUB, "SUB", 0x03},
    {zkevm_opcode::DIV, "DIV", 0x04},
    {zkevm_opcode::SDIV, "SDIV", 0x05},
    {zkevm_opcode::MOD, "MOD", 0x06},
    {zkevm_opcode::SMOD, "SMOD", 0x07},
    {zkevm_opcode::ADDMOD, "ADDMOD", 0x08},
    {zkevm_opcode::MULMOD, "MULMOD", 0x09},
    {zkevm_opcode::EXP, "EXP", 0x0a},
    {zkevm_opcode::SIGNEXTEND, "SIGNEXTEND", 0x0b},
    {zkevm_opcode::LT, "LT", 0x10},
    {zkevm_opcode::GT, "GT", 0x11},
    {zkevm_opcode::SLT, "SLT", 0x12},
    {zkevm_opcode::SGT, "SGT", 0x13},
    {zkevm_opcode::EQ, "EQ", 0x14},
    {zkevm_opcode::ISZERO, "ISZERO", 0x15},
    {zkevm_opcode::AND, "AND", 0x16},
    {zkevm_opcode::OR, "OR", 0x17},
    {zkevm_opcode::XOR, "XOR", 0x18},
    {zkevm_opcode::NOT, "NOT", 0x19},
    {zkevm_opcode::BYTE, "BYTE", 0x1a},
    {zkevm_opcode::SHL, "SHL", 0x1b},
    {zkevm_opcode::SHR, "SHR", 0x1c},
    {zkevm_opcode::SAR, "SAR", 0x1d},
    {zkevm_opcode::KECCAK256, "KECCAK256", 0x20},
    {zkevm_opcode::ADDRESS, "ADDRESS", 0x30},
    {zkevm_opcode::BALANCE, "BALANCE", 0x31},
    {zkevm_opcode::ORIGIN, "ORIGIN", 0x32},
    {zkevm_opcode::CALLER, "CALLER", 0x33},
    {zkevm_opcode::CALLVALUE, "CALLVALUE", 0x34},
    {zkevm_opcode::CALLDATALOAD, "CALLDATALOAD", 0x35},
    {zkevm_opcode::CALLDATASIZE, "CALLDATASIZE", 0x36},
    {zkevm_opcode::CALLDATACOPY, "CALLDATACOPY", 0x37},
    {zkevm_opcode::CODESIZE, "CODESIZE", 0x38},
    {zkevm_opcode::CODECOPY, "CODECOPY", 0x39},
    {zkevm_opcode::GASPRICE, "GASPRICE", 0x3a},
    {zkevm_opcode::EXTCODESIZE, "EXTCODESIZE", 0x3b},
    {zkevm_opcode::EXTCODECOPY, "EXTCODECOPY", 0x3c},
    {zkevm_opcode::RETURNDATASIZE, "RETURNDATASIZE", 0x3d},
    {zkevm_opcode::RETURNDATACOPY, "RETURNDATACOPY", 0x3e},
    {zkevm_opcode::EXTCODEHASH, "EXTCODEHASH", 0x3f},
    {zkevm_opcode::BLOCKHASH, "BLOCKHASH", 0x40},
    {zkevm_opcode::COINBASE, "COINBASE", 0x41},
    {zkevm_opcode::TIMESTAMP, "TIMESTAMP", 0x42},
    {zkevm_opcode::NUMBER, "NUMBER", 0x43},
    {zkevm_opcode::PREVRANDAO, "PREVRANDAO", 0x44},
    {zkevm_opcode::GASLIMIT, "GASLIMIT", 0x45},
    {zkevm_opcode::CHAINID, "CHAINID", 0x46},
    {zkevm_opcode::SELFBALANCE, "SELFBALANCE", 0x47},
    {zkevm_opcode::BASEFEE, "BASEFEE", 0x48},
    {zkevm_opcode::BLOBHASH, "BLOBHASH", 0x49},
    {zkevm_opcode::BLOBBASEFEE, "BLOBBASEFEE", 0x4a},
    {zkevm_opcode::POP, "POP", 0x50},
    {zkevm_opcode::MLOAD, "MLOAD", 0x51},
    {zkevm_opcode::MSTORE, "MSTORE", 0x52},
    {zkevm_opcode::MSTORE8, "MSTORE8", 0x53},
    {zkevm_opcode::SLOAD, "SLOAD", 0x54},
    {zkevm_opcode::SSTORE, "SSTORE", 0x55},
    {zkevm_opcode::JUMP, "JUMP", 0x56},
    {zkevm_opcode::JUMPI, "JUMPI", 0x57},
    {zkevm_opcode::PC, "PC", 0x58},
    {zkevm_opcode::MSIZE, "MSIZE", 0x59},
    {zkevm_opcode::GAS, "GAS", 0x5a},
    {zkevm_opcode::JUMPDEST, "JUMPDEST", 0x5b},
    {zkevm_opcode::TLOAD, "TLOAD", 0x5c},
    {zkevm_opcode::TSTORE, "TSTORE", 0x5d},
    {zkevm_opcode::MCOPY, "MCOPY", 0x5e},
    {zkevm_opcode::PUSH0, "PUSH0", 0x5f},
    {zkevm_opcode::PUSH1, "PUSH1", 0x60},
    {zkevm_opcode::PUSH2, "PUSH2", 0x61},
    {zkevm_opcode::PUSH3, "PUSH3", 0x62},
    {zkevm_opcode::PUSH4, "PUSH4", 0x63},
    {zkevm_opcode::PUSH5, "PUSH5", 0x64},
    {zkevm_opcode::PUSH6, "PUSH6", 0x65},
    {zkevm_opcode::PUSH7, "PUSH7", 0x66},
    {zkevm_opcode::PUSH8, "PUSH8", 0x67},
    {zkevm_opcode::PUSH9, "PUSH9", 0x68},
    {zkevm_opcode::PUSH10, "PUSH10", 0x69},
    {zkevm_opcode::PUSH11, "PUSH11", 0x6a},
    {zkevm_opcode::PUSH12, "PUSH12", 0x6b},
    {zkevm_opcode::PUSH13, "PUSH13", 0x6c},
    {zkevm_opcode::PUSH14, "PUSH14", 0x6d},
    {zkevm_opcode::PUSH15, "PUSH15", 0x6e},
    {zkevm_opcode::PUSH16, "PUSH16", 0x6f},
    {zkevm_opcode::PUSH17, "PUSH17", 0x70},
    {zkevm_opcode::PUSH18, "PUSH18", 0x71},
    {zkevm_opcode::PUSH19, "PUSH19", 0x72},
    {zkevm_opcode::PUSH20, "PUSH20", 0x73},
    {zkevm_opcode::PUSH21, "PUSH21", 0x74},
    {zkevm_opcode::PUSH22, "PUSH22", 0x75},
    {zkevm_opcode::PUSH23, "PUSH23", 0x76},
    {zkevm_opcode::PUSH24, "PUSH24", 0x77},
    {zkevm_opcode::PUSH25, "PUSH25", 0x78},
    {zkevm_opcode::PUSH26, "PUSH26", 0x79},
    {zkevm_opcode::PUSH27, "PUSH27", 0x7a},
    {zkevm_opcode::PUSH28, "PUSH28", 0x7b},
    {zkevm_opcode::PUSH29, "PUSH29", 0x7c},
    {zkevm_opcode::PUSH30, "PUSH30", 0x7d},
    {zkevm_opcode::PUSH31, "PUSH31", 0x7e},
    {zkevm_opcode::PUSH32, "PUSH32", 0x7f},
    {zkevm_opcode::DUP1, "DUP1", 0x80},
    {zkevm_opcode::DUP2, "DUP2", 0x81},
    {zkevm_opcode::DUP3, "DUP3", 0x82},
    {zkevm_opcode::DUP4, "DUP4", 0x83},
    {zkevm_opcode::DUP5, "DUP5", 0x84},
    {zkevm_opcode::DUP6, "DUP6", 0x85},
    {zkevm_opcode::DUP7, "DUP7", 0x86},
    {zkevm_opcode::DUP8, "DUP8", 0x87},
    {zkevm_opcode::DUP9, "DUP9", 0x88},
    {zkevm_opcode::DUP10, "DUP10", 0x89},
    {zkevm_opcode::DUP11, "DUP11", 0x8a},
    {zkevm_opcode::DUP12, "DUP12", 0x8b},
    {zkevm_opcode::DUP13, "DUP13", 0x8c},
    {zkevm_opcode::DUP14, "DUP14", 0x8d},
    {zkevm_opcode::DUP15, "DUP15", 0x8e},
    {zkevm_opcode::DUP16, "DUP16", 0x8f},
    {zkevm_opcode::SWAP1, "SWAP1", 0x90},
    {zkevm_opcode::SWAP2, "SWAP2", 0x91},
    {zkevm_opcode::SWAP3, "SWAP3", 0x92},
    {zkevm_opcode::SWAP4, "SWAP4", 0x93},
    {zkevm_opcode::SWAP5, "SWAP5", 0x94},
    {zkevm_opcode::SWAP6, "SWAP6", 0x95},
    {zkevm_opcode::SWAP7, "SWAP7", 0x96},
    {zkevm_opcode::SWAP8, "SWAP8", 0x97},
    {zkevm_opcode::SWAP9, "SWAP9", 0x98},
    {zkevm_opcode::SWAP10, "SWAP10", 0x99},
    {zkevm_opcode::SWAP11, "SWAP11", 0x9a},
    {zkevm_opcode::SWAP12, "SWAP12", 0x9b},
    {zkevm_opcode::SWAP13, "SWAP13", 0x9c},
    {zkevm_opcode::SWAP14, "SWAP14", 0x9d},
    {zkevm_opcode::SWAP15, "SWAP15", 0x9e},
    {zkevm_opcode::SWAP16, "SWAP16", 0x9f},
    {zkevm_opcode::LOG0, "LOG0", 0xa0},
    {zkevm_opcode::LOG1, "LOG1", 0xa1},
    {zkevm_opcode::LOG2, "LOG2", 0xa2},
    {zkevm_opcode::LOG3, "LOG3", 0xa3},
    {zkevm_opcode::LOG4, "LOG4", 0xa4},
    {zkevm_opcode::CREATE, "CREATE", 0xf0},
    {zkevm_opcode::CALL, "CALL", 0xf1},
    {zkevm_opcode::CALLCODE, "CALLCODE", 0xf2},
    {zkevm_opcode::RETURN, "RETURN", 0xf3},
    {zkevm_opcode::DELEGATECALL, "DELEGATECALL", 0xf4},
    {zkevm_opcode::CREATE2, "CREATE2", 0xf5},
    {zkevm_opcode::STATICCALL, "STATICCALL", 0xfa},
    {zkevm_opcode::REVERT, "REVERT", 0xfd},
    {zkevm_opcode::INVALID, "INVALID", 0xfe},
    {zkevm_opcode::SELFDESTRUCT, "SELFDESTRUCT", 0xff},
};
static std::size_t push_bytes(std::size_t b) { return b >= 0x60 && b <= 0x7f ? b - 0x5f : 0; }

template<typename F>
static void table(const std::string &fname) {
    using V = typename F::value_type;
    for (const char *sub : {"full", "opcodes_only"}) {
        vf::run_case("table/" + fname + "/" + sub, "table", [&] {
            lookup_library<F> lib;
            std::string name = std::string("zkevm_opcodes/") + sub;
            lib.reserve_table(name);
            auto def = lib.get_reserved_tables().at("zkevm_opcodes");
            const auto &t = def->get_table();
            auto s = def->subtables.at(sub);
            std::set<std::vector<V>> got;
            std::size_t rows = 0;
            for (std::size_t r = s.begin; r <= s.end; r++, rows++) {
                std::vector<V> row;
                for (auto c : s.column_indices) row.push_back(t.at(c).at(r));
                got.insert(row);
            }
            bool full = std::string(sub) == "full";
            std::set<std::vector<V>> want;
            for (auto &e : spec) {
                vf::evaluated(fname + name + e.name);
                std::vector<V> row = {V(e.byte)};
                if (full) { row.push_back(V(push_bytes(e.byte))); row.push_back(V(1u)); }
                want.insert(row);
                if (!got.count(row)) vf::violation("table:missing", fname + " " + name + " lacks " + e.name);
            }
            want.insert(full ? std::vector<V> {V(0u), V(0u), V(0u)} : std::vector<V> {V(0u)});
            vf::count("lookup table rows", rows);
            for (auto &row : got)
                if (!want.count(row)) {
                    std::ostringstream o;
                    o << fname << " " << name << " accepts";
                    for (auto &v : row) o << " " << v;
                    vf::violation("table:extra", o.str());
                }
            if (full && !got.count({V(0u), V(0u), V(0u)})) vf::violation("table:unselected", fname + " " + name + " lacks the row for unselected lines");
        });
    }
}

int main() {
    vf::init();
    const auto &info = opcodes_info::instance();
    vf::run_case("amount", "amount", [&] {
        vf::evaluated("amount");
        if (info.get_opcodes_amount() != 149) vf::violation("amount", std::to_string(info.get_opcodes_amount()) + " opcodes announced");
        if (&info != &opcodes_info::instance()) vf::violation("amount:instance", "two instances of the mapping");
    });
    for (auto &e : spec) {
        vf::run_case(std::string("opcode/") + e.name, "opcode", [&] {
            vf::evaluated(std::string("byte of ") + e.name);
            vf::count("opcodes");
            std::size_t b = info.get_opcode_value(e.op);
            if (b != e.byte) vf::violation(std::string("opcode:byte"), std::string(e.name) + " maps to " + std::to_string(b) + ", expected " + std::to_string(e.byte));
            vf::evaluated(std::string("opcode of ") + e.name);
            if (info.get_opcode_from_value(e.byte) != e.op) vf::violation("opcode:inverse", "byte " + std::to_string(e.byte) + " maps to " + opcode_to_string(info.get_opcode_from_value(e.byte)));
            vf::evaluated(std::string("name of ") + e.name);
            std::ostringstream o;
            o << e.op;
            if (opcode_to_string(e.op) != e.name || o.str() != e.name) vf::violation("opcode:name", std::string(e.name) + " is called " + opcode_to_string(e.op) + " and printed " + o.str());
            vf::sample(std::string(e.name) + " = " + std::to_string(b));
        });
    }
    std::vector<std::size_t> values;
    for (std::size_t v = 0; v < 600; v++) values.push_back(v);
    // what looks like an instruction in fewer bits is none
    for (auto &e : spec) for (std::size_t k : {16, 24, 31, 32, 48, 63}) values.push_back((std::size_t(1) << k) + e.byte);
    for (std::size_t k = 0; k < 256; k++) values.push_back(~k);
    for (std::size_t v : values) {
        bool assigned = false;
        for (auto &e : spec) assigned |= e.byte == v;
        if (assigned) continue;
        vf::run_case("unassigned/" + std::to_string(v), "unassigned", [&] {
            vf::evaluated("unassigned byte " + std::to_string(v));
            vf::count("unassigned values refused");
            bool refused = false;
            std::string as;
            try { as = opcode_to_string(info.get_opcode_from_value(v)); } catch (const std::exception &) { refused = true; }
            if (!refused) vf::violation("unassigned", "value " + std::to_string(v) + " is taken for " + as);
        });
    }
    for (std::size_t k = 0; k < 256; k++) {
        // an operation that is none of them has no byte and no name of another
        auto op = static_cast<zkevm_opcode>(k);
        bool listed = false;
        for (auto &e : spec) listed |= e.op == op;
        if (listed) continue;
        vf::run_case("stranger/" + std::to_string(k), "stranger", [&] {
            vf::evaluated("stranger " + std::to_string(k));
            vf::count("operations outside the instruction set");
            bool refused = false;
            try { info.get_opcode_value(op); } catch (const std::exception &) { refused = true; }
            if (!refused) vf::violation("stranger", "an operation outside the instruction set has a byte");
            for (auto &e : spec) if (opcode_to_string(op) == e.name) vf::violation("stranger", std::string("an operation outside the instruction set is called ") + e.name);
        });
    }
    table<fields::pallas_base_field>("pallas");
    table<fields::bls12_scalar_field<381>>("bls12-381 fr");
    return vf::finish();
}
