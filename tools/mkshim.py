"""Write the forwarding headers of the crypto3 stand-in (run by hand)."""
import os
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim")
H = """nil/crypto3/zk/snark/arithmetization/plonk/constraint_system.hpp
nil/crypto3/zk/snark/arithmetization/plonk/constraint.hpp
nil/crypto3/zk/snark/arithmetization/plonk/variable.hpp
nil/crypto3/zk/snark/arithmetization/plonk/gate.hpp
nil/crypto3/zk/snark/arithmetization/plonk/table_description.hpp
nil/crypto3/zk/snark/arithmetization/plonk/copy_constraint.hpp
nil/crypto3/zk/snark/arithmetization/plonk/assignment.hpp
nil/crypto3/zk/snark/arithmetization/plonk/params.hpp
nil/crypto3/zk/snark/arithmetization/plonk/padding.hpp
nil/crypto3/zk/snark/arithmetization/plonk/lookup_gate.hpp
nil/crypto3/zk/snark/arithmetization/plonk/lookup_constraint.hpp
nil/crypto3/zk/snark/arithmetization/plonk/lookup_table_definition.hpp
nil/crypto3/zk/snark/arithmetization/plonk/detail/lookup_table_definition.hpp
nil/crypto3/zk/snark/arithmetization/constraint_satisfaction_problems/r1cs.hpp
nil/crypto3/zk/math/expression.hpp
nil/crypto3/zk/math/expression_visitors.hpp
nil/crypto3/zk/math/expression_evaluator.hpp
nil/crypto3/random/algebraic_engine.hpp
nil/crypto3/random/algebraic_random_device.hpp
nil/crypto3/algebra/random_element.hpp
nil/crypto3/algebra/curves/pallas.hpp
nil/crypto3/algebra/curves/vesta.hpp
nil/crypto3/algebra/curves/ed25519.hpp
nil/crypto3/algebra/curves/curve25519.hpp
nil/crypto3/algebra/curves/bls12.hpp
nil/crypto3/algebra/curves/mnt4.hpp
nil/crypto3/algebra/curves/mnt6.hpp
nil/crypto3/algebra/fields/arithmetic_params/mnt4.hpp
nil/crypto3/algebra/fields/arithmetic_params/mnt6.hpp
nil/crypto3/algebra/curves/alt_bn128.hpp
nil/crypto3/algebra/fields/pallas/base_field.hpp
nil/crypto3/algebra/fields/pallas/scalar_field.hpp
nil/crypto3/algebra/fields/vesta/base_field.hpp
nil/crypto3/algebra/fields/vesta/scalar_field.hpp
nil/crypto3/algebra/fields/curve25519/base_field.hpp
nil/crypto3/algebra/fields/curve25519/scalar_field.hpp
nil/crypto3/algebra/fields/goldilocks64/base_field.hpp
nil/crypto3/algebra/fields/bls12/base_field.hpp
nil/crypto3/algebra/fields/bls12/scalar_field.hpp
nil/crypto3/algebra/fields/arithmetic_params/pallas.hpp
nil/crypto3/algebra/fields/arithmetic_params/vesta.hpp
nil/crypto3/algebra/fields/arithmetic_params/ed25519.hpp
nil/crypto3/algebra/fields/arithmetic_params/bls12.hpp
nil/crypto3/algebra/fields/arithmetic_params/goldilocks64.hpp
nil/crypto3/algebra/fields/arithmetic_params/alt_bn128.hpp
nil/crypto3/algebra/matrix/matrix.hpp
nil/crypto3/algebra/marshalling.hpp
nil/crypto3/math/polynomial/polynomial.hpp
nil/crypto3/math/polynomial/lagrange_interpolation.hpp
nil/crypto3/math/algorithms/calculate_domain_set.hpp
nil/crypto3/math/algorithms/unity_root.hpp
nil/crypto3/math/detail/field_utils.hpp
nil/crypto3/hash/keccak.hpp
nil/crypto3/hash/sha2.hpp
nil/crypto3/hash/poseidon.hpp
nil/crypto3/hash/type_traits.hpp
nil/crypto3/hash/algorithm/hash.hpp
nil/crypto3/hash/adaptor/hashed.hpp
nil/crypto3/marshalling/algebra/types/field_element.hpp
nil/crypto3/marshalling/zk/types/plonk/constraint_system.hpp
nil/crypto3/marshalling/zk/types/plonk/assignment_table.hpp
nil/crypto3/zk/snark/systems/plonk/placeholder/proof.hpp
nil/crypto3/zk/snark/systems/plonk/placeholder/prover.hpp
nil/crypto3/zk/snark/systems/plonk/placeholder/verifier.hpp
nil/crypto3/zk/snark/systems/plonk/placeholder/params.hpp
nil/crypto3/zk/snark/systems/plonk/placeholder/preprocessor.hpp
nil/crypto3/zk/snark/systems/plonk/placeholder/detail/profiling.hpp
nil/marshalling/algorithms/pack.hpp
nil/marshalling/field_type.hpp
nil/marshalling/status_type.hpp
nil/marshalling/endianness.hpp
boost/multiprecision/cpp_int_modular.hpp""".split()
for h in H:
    p = os.path.join(ROOT, h)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write("#pragma once\n#include <vshim/all.hpp>\n")
