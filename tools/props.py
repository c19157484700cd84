# The properties, in the order they are claimed.
B = "include/nil/blueprint/"
SAN = "the real code run under AddressSanitizer and UndefinedBehaviorSanitizer with assertions turned into observable events, "

PROPS = [
    dict(
        id="C05", title="Manifest amount algebra agrees with the sets of amounts it describes",
        statement="A requirement on an amount of columns stands for a set of amounts, and every question about it - membership, at-least, satisfiability, largest value, enumeration - and every combination of requirements - intersection, merging, subtraction, bounding - gives the answer that set gives. A component manifest accepts a compiler's offer exactly when the offered columns suffice and the required kinds of constants and lookups are provided.",
        over=["inputs", "histories"],
        quant="All single, set and range requirements (any start, end and step, also empty and unaligned ones), all pairs, and all chains of combining operations on them; all compiler offers.",
        tests="The 7 manifest tests compare a handful of hand-picked pairs; the pairs where start is not a multiple of the step, where a side is empty or where residues differ are never reached.",
        files=[B + "manifest.hpp", B + "component.hpp"],
        mech=[("intersection, merge and subtraction of amount requirements", B + "manifest.hpp"), ("membership, at-least and maximum queries", B + "manifest.hpp"), ("component and compiler manifest comparison", B + "manifest.hpp")],
        observe=["results of the manifest API"],
        technique=SAN + "driven by generated requirements and chains; every answer compared online with an explicit set model",
        level_note="Generated and small-exhaustive requirements with a set model as oracle; values up to 2^29, the largest ranges checked pointwise."),
    dict(
        id="C06", title="Gate counts add up: shared gates count once, distinct gates separately",
        statement="The number of gates a composite component announces is the number of distinct gates its parts need: parts that need the same gate with the same parameters share it, parts that differ in kind, parameters or witness amount do not. The number never depends on the order in which, or how often, parts were combined.",
        over=["inputs", "histories"],
        quant="All multisets of parts, all orders of merging, self-merges and merges of already merged collections.",
        tests="One test merges two fixed collections; order, repetition and near-equal parts are not explored.",
        files=[B + "manifest.hpp"],
        mech=[("ordered collection of gate descriptions with component specific comparison", B + "manifest.hpp")],
        observe=["announced gate amount"],
        technique=SAN + "driven by generated collections merged in random orders; the count compared online with a model of distinct parts",
        level_note="Generated merge histories against a reference count."),
    dict(
        id="C07", title="Packing places every task once and stays within 11/9 of the best load",
        statement="Distributing tasks over agents places every task on exactly one existing agent, whatever the sizes (also zero) and amounts. The heaviest agent carries at most 11/9 of the smallest possible heaviest load.",
        over=["inputs"],
        quant="All lists of task sizes including empty lists, zero sizes and equal sizes, and all numbers of agents from one up.",
        tests="Two fixed examples are checked.",
        files=[B + "detail/huang_lu.hpp", B + "component_stretcher.hpp"],
        mech=[("threshold search with first-fit-decreasing", B + "detail/huang_lu.hpp")],
        observe=["the returned map from task to agent"],
        technique=SAN + "on exhaustive small instances, instances with a planted optimum and random ones; placement and load judged by an independent oracle (exact search, planted optimum or lower bound)",
        level_note="Bound decided exactly where the optimum is known (exact search or planted), by lower bound otherwise."),
    dict(
        id="C08", title="Built-in lookup tables hold exactly the rows of the relation they stand for",
        statement="Every table the lookup library offers - byte and 16-bit ranges, binary and/xor, the SHA-256 spreading, parity, majority and choice tables - contains each row of its relation and no other row, in every part of it that can be reserved. This holds for every field the library is used with.",
        over=["inputs"],
        quant="All rows of all ten built-in tables (5.7 million in the largest) and all their reservable parts, over two fields.",
        tests="The tables are only filled by tests that need the proof system; none looks at the rows.",
        files=[B + "lookup_library.hpp", B + "detail/lookup_table_precomputes.hpp", B + "detail/lookup_table_loaders.hpp"],
        mech=[("table generators and reservable parts", B + "lookup_library.hpp"), ("embedded table text", B + "detail/lookup_table_precomputes.hpp")],
        observe=["the reserved tables of a circuit"],
        technique=SAN + "with every row of every reserved table compared with the rows an independent model of the relation produces",
        level_note="Exhaustive over rows; runs on a stand-in for the absent crypto3 field types."),
    dict(
        id="C17", title="Table reservations keep stable, distinct, invertible indices",
        statement="Whatever the order of registering, reserving, repeating and defining tables, each reserved name has one index, the indices are 1 to n in order of first reservation and lead back to the name. Exactly the reserved tables and parts are offered, with the registered content and ranges, and a dynamic table is defined exactly when somebody defined it. Unknown names and reservations after the tables were read are refused.",
        over=["histories"],
        quant="All histories of up to 24 register, reserve, define and read calls over built-in, user and dynamic tables.",
        tests="No stable test touches reservations.",
        files=[B + "lookup_library.hpp", B + "blueprint/plonk/circuit.hpp"],
        mech=[("reservation and index bookkeeping", B + "lookup_library.hpp"), ("circuit interface to the library", B + "blueprint/plonk/circuit.hpp")],
        observe=["reserved indices in both directions", "reserved tables", "dynamic table definitions"],
        technique=SAN + "driven by random call histories; the observed state compared with a model after each query",
        level_note="Random histories with a model as oracle, on a stand-in for crypto3."),
    dict(
        id="C09", title="Lookup table text is read exactly or refused",
        statement="A lookup table text that announces its size and holds that many rows of its columns is read value for value, over the whole width of the field. A text that is short, malformed, oversized or has rows with too few or too many values is refused and the next candidate is tried; with no usable file the built-in text is used. No input reads outside memory or ends the program.",
        over=["inputs", "faults"],
        quant="All texts: generated tables of any size and width, and spoiled variants (truncated, extra or missing values, stray characters, wrong announced sizes), in all candidate orders.",
        tests="No stable test reads a table text.",
        files=[B + "detail/lookup_table_loaders.hpp", B + "detail/lookup_table_precomputes.hpp"],
        mech=[("line and value parser", B + "detail/lookup_table_loaders.hpp"), ("choice among candidate files and the embedded text", B + "detail/lookup_table_loaders.hpp")],
        observe=["the loaded table", "success or refusal"],
        technique=SAN + "fed with generated and spoiled texts; outcome and values compared online with what was written",
        level_note="Generated texts and fault variants against the values they were printed from."),
    dict(
        id="C10", title="Splitting into chunks loses nothing and agrees with the bitwise functions",
        statement="Splitting a word, its sparse spreading or a sum of spreadings into chunks gives chunks within their announced widths that recombine to the input. The result parts decode to what the corresponding bitwise function - rotations and shifts, majority, choice - gives on the words.",
        over=["inputs"],
        quant="All 32 and 64-bit words incl. boundary patterns, all chunk shapes and bases, all combinations used by the round functions.",
        tests="The stable tests never call these functions.",
        files=[B + "components/hashes/sha2/plonk/detail/split_functions.hpp"],
        mech=[("chunk, sparse and reversed splits", B + "components/hashes/sha2/plonk/detail/split_functions.hpp")],
        observe=["returned chunks and values"],
        technique=SAN + "on boundary and random words; each result recombined and compared with a digit model",
        level_note="Generated inputs; chunk shapes used in the repository plus random ones."),
    dict(
        id="C19", title="EVM instruction numbering and names match the published instruction set",
        statement="Every instruction has its published byte and name, in both directions, and no two share either. Values that belong to no instruction are refused. The instruction lookup table offers exactly these instructions with their numbers.",
        over=["inputs"],
        quant="All 256 byte values, all instructions, all names, all rows of the instruction table over two fields.",
        tests="No stable test covers the instruction list.",
        files=[B + "zkevm/zkevm_opcodes.hpp", B + "lookup_library.hpp"],
        mech=[("instruction enumeration and conversions", B + "zkevm/zkevm_opcodes.hpp"), ("instruction lookup table", B + "lookup_library.hpp")],
        observe=["conversions between numbers, bytes and names", "the instruction lookup table"],
        technique=SAN + "run over every value; compared with an independently written instruction list",
        level_note="Exhaustive."),
    dict(
        id="C11", title="A selector belongs to one gate: equal gates share it, others never do",
        statement="Adding a gate or lookup gate returns the selector of the gate with the same set of constraints if there is one, and a fresh selector otherwise. Two gates share a selector only if they are the same set of polynomial constraints (for lookups: over the same tables), and no selector is handed out twice, also not to dynamic tables. The circuit holds each distinct gate once with exactly the constraints given.",
        over=["inputs", "histories"],
        quant="All histories of adding gates, lookup gates and asking for dynamic table selectors; constraints written in any order and form, alone or in lists, near-equal ones included.",
        tests="The tests of gate identity need the proof system and compare a few fixed pairs.",
        files=[B + "gate_id.hpp", B + "blueprint/plonk/circuit.hpp"],
        mech=[("gate identity by evaluation at random points", B + "gate_id.hpp"), ("selector bookkeeping", B + "blueprint/plonk/circuit.hpp")],
        observe=["returned selectors", "gates of the circuit"],
        technique=SAN + "driven by random histories of equal, rewritten and near-equal gates; selectors compared with a model deciding equality by canonical polynomials",
        level_note="Random histories over two fields, on a stand-in for crypto3; a chance collision of fingerprints has probability about 2^-60 over the small field."),
    dict(
        id="C12", title="The satisfiability check accepts exactly the satisfying tables",
        statement="The check says yes exactly if every enabled gate vanishes, every enabled lookup finds its row in the rows of the named part of the table (also dynamic tables) and all copied cells are equal. This holds for the whole circuit and for each selection of gates, lookups, copies and rows.",
        over=["inputs", "faults"],
        quant="All small circuits of gates, fixed and dynamic lookups and copies, with satisfying tables and tables with one spoiled cell, for all selections.",
        tests="Tests only use the check to accept honest tables; no test sees it refuse.",
        files=[B + "utils/satisfiability_check.hpp"],
        mech=[("gate, lookup and copy evaluation", B + "utils/satisfiability_check.hpp")],
        observe=["the yes or no answer"],
        technique=SAN + "with every answer compared online with an independent evaluation",
        level_note="Random circuits and single-cell faults, on a stand-in for crypto3."),
    dict(
        id="C13", title="The connectedness check answers as reachability in the circuit does",
        statement="Inputs and outputs are called strongly or weakly connected exactly if a search over the cells, joined by enabled gates and copies, finds it so. The reported islands are exactly the groups of cells that reach no input or output.",
        over=["inputs"],
        quant="All small circuits with random gates, copies, inputs and outputs within one component's rows.",
        tests="Tests of this check need the proof system and only see connected components.",
        files=[B + "utils/connectedness_check.hpp"],
        mech=[("union of cells and traversal", B + "utils/connectedness_check.hpp")],
        observe=["connectedness answers", "reported islands"],
        technique=SAN + "with each answer compared with a breadth-first search over an explicitly built graph",
        level_note="Random circuits with up to three constant columns and one public column, on a stand-in for crypto3."),
    dict(
        id="C14", title="Batching places every request once and ties it to its operands",
        statement="Components put into batches end up in the table once per distinct request, side by side in the rows after the start row, in no more rows than their width demands. Every result has the value its component computes and a cell of its own, and every operand and result is tied to the rest of the circuit, so that no single cell can be changed unnoticed. This holds whether circuits or assignments were requested first, again or mixed.",
        over=["inputs", "histories"],
        quant="All graphs of up to 24 requests to five batchable components (one with parameters), with results feeding other requests and ordinary components, in all five orders of circuit and assignment calls, over 5 to 18 columns.",
        tests="The batching tests need the proof system and compare a few fixed circuits.",
        files=[B + "component_batch.hpp", B + "blueprint/plonk/assignment.hpp", B + "utils/gate_mover.hpp"],
        mech=[("requests, placeholders and placement", B + "component_batch.hpp"), ("replacement of placeholders in copy constraints", B + "blueprint/plonk/assignment.hpp"), ("moving of gate constraints to other columns", B + "utils/gate_mover.hpp")],
        observe=["the finished table and circuit", "the map from placeholders to cells"],
        technique=SAN + "on random request graphs; the finished circuit judged by an independent evaluator, whole and after damaging each cell",
        level_note="Random graphs with an independent evaluator, on a stand-in for crypto3."),
    dict(
        id="C15", title="Batched constants take free cells only and keep their values",
        statement="Equal constants share one cell, different ones never do, and every use of a batched constant leads to a cell with its value. They are placed in the first cells from the start row that no enabled gate, lookup or copy refers to; no other constant changes.",
        over=["inputs"],
        quant="All small circuits whose gates and lookups refer to constants on the row itself, above and below, with copies of constants, all start rows, and any list of constants with repetitions.",
        tests="One fixed example places two constants.",
        files=[B + "blueprint/plonk/assignment.hpp"],
        mech=[("search for free constant cells", B + "blueprint/plonk/assignment.hpp")],
        observe=["constant column and copy constraints after batching", "returned row"],
        technique=SAN + "on random circuits; the placement compared with a model of the cells in use and the circuit judged by an independent evaluator",
        level_note="Random circuits, on a stand-in for crypto3."),
    dict(
        id="C16", title="A proxy does what its circuit and table do and records what it used",
        statement="Every call made through a proxy has the effect and answer it would have on the circuit or table behind it, also when several proxies share one. Each proxy lists exactly the gates, lookup gates, copy constraints, tables and rows used through it. A proxy is reported satisfied exactly if what it lists is satisfied by the shared table.",
        over=["inputs", "histories"],
        quant="All histories of calls through up to four proxies of one circuit and one table: gates, lookups, copies, static and dynamic tables, cells of all kinds, column changes, shared values.",
        tests="The proxy tests need the proof system and replay a few fixed histories; none sees a proxy refuse a table.",
        files=[B + "blueprint/plonk/circuit_proxy.hpp", B + "blueprint/plonk/assignment_proxy.hpp"],
        mech=[("forwarding and bookkeeping of the circuit proxy", B + "blueprint/plonk/circuit_proxy.hpp"), ("forwarding and bookkeeping of the table proxy", B + "blueprint/plonk/assignment_proxy.hpp")],
        observe=["circuit and table through each proxy", "recorded uses", "satisfiability of a proxy"],
        technique=SAN + "driven by random call histories mirrored on a plain circuit and table; state and recorded uses compared after each call",
        level_note="Random histories against a mirror, on a stand-in for crypto3."),
    dict(
        id="C20", title="Exports show every cell and constraint, and nothing else",
        statement="An exported table lists every row and column asked for, in order, with the values the table holds (zero where it holds none), padded to full width on request; a proxy shows private cells of its own rows only. An exported circuit lists every gate and copy constraint, a proxy's export those it used. All text goes to the given stream, whose format is left as it was.",
        over=["inputs"],
        quant="All small tables with columns of unequal length or no columns, all selections of rows and columns, and random circuits shared by two proxies.",
        tests="No test looks at an export.",
        files=[B + "blueprint/plonk/assignment.hpp", B + "blueprint/plonk/circuit.hpp", B + "blueprint/plonk/circuit_proxy.hpp", B + "blueprint/plonk/assignment_proxy.hpp"],
        mech=[("table export", B + "blueprint/plonk/assignment.hpp"), ("proxy table export", B + "blueprint/plonk/assignment_proxy.hpp"), ("circuit export", B + "blueprint/plonk/circuit.hpp")],
        observe=["the exported text", "the standard output", "stream format"],
        technique=SAN + "on random tables and circuits; the text is parsed back and compared cell by cell",
        level_note="Random tables and circuits, on a stand-in for crypto3."),
    dict(
        id="C21", title="Field gadgets compute their function and accept nothing else",
        statement="Addition, subtraction, multiplication, division, exponentiation, square root, zero and equality flags, bit logic, selection and interpolation give the value their name promises, wherever they are placed and in whatever order their columns come. No table satisfies their constraints with another result for the same inputs, or with an input they have to refuse. They write only in their own rows and columns and need exactly the rows and gates they announce.",
        over=["inputs"],
        quant="All field elements as inputs (edge values and random ones), witness columns in any order, start rows, inputs from private or public cells, one or two instances in a circuit; dishonest tables by exchanged cells, by a kernel search over all cells and by repair search.",
        tests="The component tests need the proof system, place each gadget once at row 0 in ordered columns and never try a dishonest table.",
        files=[B + "components/algebra/fields/plonk/" + f + ".hpp" for f in ("addition", "division", "exponentiation", "sqrt", "logic_or_flag", "non_native/logic_ops", "non_native/equality_flag", "quadratic_interpolation")],
        mech=[("arithmetic gadgets", B + "components/algebra/fields/plonk/division_or_zero.hpp"), ("exponentiation", B + "components/algebra/fields/plonk/exponentiation.hpp"), ("flags over one or several rows", B + "components/algebra/fields/plonk/logic_and_flag.hpp")],
        observe=["every cell written", "constraints, selectors and copies", "results of the circuit, the assignment and the assignment without constraints"],
        technique=SAN + "on placed gadgets; each table judged by an independent evaluator, its cells exchanged, its constraint Jacobian searched for movable results and a dishonest prover let loose on it",
        level_note="Random inputs and placements; absence of dishonest tables is searched for to first order and by repair, not proved. On a stand-in for crypto3."),
    dict(
        id="C22", title="Range, bit, comparison and division gadgets are exact for every size",
        statement="Range checks, bit decomposition and composition, shifts by a constant, comparisons and division with remainder give the exact result for every number of bits and every allowed number of columns. No table satisfies their constraints for a number outside the range, a false comparison or another result. They write only in their own rows and columns and need exactly the rows and gates they announce.",
        over=["inputs"],
        quant="Sizes from one bit to just below the field size, all allowed widths up to 15, all modes; numbers at, around and far beyond the bounds; any start row and order of columns; dishonest tables by exchanged cells, kernel search and repair search.",
        tests="The component tests need the proof system, use a few sizes and widths at row 0 and only hand-made dishonest tables.",
        files=[B + "components/algebra/fields/plonk/" + f + ".hpp" for f in ("range_check", "bit_shift_constant", "non_native/bit_decomposition", "non_native/bit_composition", "non_native/detail/bit_builder_component", "non_native/comparison_checked", "non_native/comparison_flag", "non_native/comparison_unchecked", "non_native/division_remainder")],
        mech=[("layout of bits and running sums", B + "components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp"), ("chunked comparison", B + "components/algebra/fields/plonk/non_native/comparison_flag.hpp"), ("padding of the first chunk", B + "components/algebra/fields/plonk/range_check.hpp")],
        observe=["every cell written", "constraints, selectors and copies", "results of the circuit, the assignment and the assignment without constraints"],
        technique=SAN + "on placed gadgets; each table judged by an independent evaluator, its cells exchanged, its constraint Jacobian searched for movable results and a dishonest prover let loose on it",
        level_note="Random sizes, inputs and placements; absence of dishonest tables is searched for, not proved. On a stand-in for crypto3."),
    dict(
        id="C23", title="What gadgets announce depends on their own parameters and is kept",
        statement="The widths a gadget announces depend only on the parameters asked for, not on earlier questions. On every announced width it can be built and takes exactly the announced rows and gates. Merged announcements of several gadgets are never smaller than the gates these add to one circuit, and equal gadgets are counted once.",
        over=["inputs", "histories"],
        quant="All pairs of gadgets with differing parameters on a common width, and all orders of questions.",
        tests="Tests of gadgets compare announced gates and rows for one gadget at a time; none asks twice with different parameters.",
        files=[B + "components/algebra/fields/plonk/range_check.hpp", B + "components/algebra/fields/plonk/non_native/comparison_flag.hpp", B + "components/systems/snark/plonk/placeholder/fri_cosets.hpp", B + "components/systems/snark/plonk/flexible/pow_factor.hpp", B + "manifest.hpp"],
        mech=[("announced widths", B + "components/algebra/fields/plonk/range_check.hpp"), ("merging of gate announcements", B + "manifest.hpp")],
        observe=["announced widths, rows and gates", "gates and rows of the built circuit"],
        technique=SAN + "driven by random question histories; answers compared with those of fresh processes and with what two gadgets really add to one circuit",
        level_note="Random histories and pairs, on a stand-in for crypto3."),
    dict(
        id="C24", title="Proof-checking gadgets compute exactly what the proof system defines",
        statement="The gadgets a proof-checking circuit is made of (swaps, sums, powers, polynomial and expression values, coset points, interpolation, and the gate, permutation and lookup argument checks) give the value the proof system defines for every size and allowed width. No table satisfies their constraints with another value, and every input is tied. Filling in values does not depend on the circuit having been built first.",
        over=["inputs"],
        quant="Random sizes, gate shapes, lookup shapes and expressions; all allowed widths up to 36; any start row and order of columns, one or two placements; dishonest tables by exchanged cells, kernel search and repair search.",
        tests="The component tests need the proof system, use a few sizes on one or two widths at row 0 and no dishonest tables.",
        files=[B + "components/systems/snark/plonk/" + f + ".hpp" for f in ("flexible/swap", "flexible/additions", "flexible/multiplications", "flexible/constant_pow", "flexible/pow_factor", "flexible/x_index", "flexible/colinear_checks", "placeholder/fri_array_swap", "placeholder/fri_cosets", "placeholder/fri_lin_inter", "placeholder/gate_argument_verifier", "placeholder/permutation_argument_verifier", "placeholder/lookup_argument_verifier", "placeholder/detail/f1_loop", "placeholder/detail/f3_loop", "placeholder/detail/gate_component", "placeholder/detail/expression_evaluation_component", "verifier/final_polynomial_check")],
        mech=[("layout of running products and sums over rows", B + "components/systems/snark/plonk/placeholder/detail/f1_loop.hpp"), ("combination of the parts of the lookup argument", B + "components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp"), ("batched evaluation of expressions", B + "components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp")],
        observe=["every cell written", "constraints, selectors and copies", "results of the circuit, the assignment, and the assignment without circuit or constraints"],
        technique=SAN + "on placed gadgets; results compared with formulas of the proof system, tables judged by an independent evaluator, attacked by exchanged cells, kernel search and a dishonest prover",
        level_note="Random sizes, inputs and placements; absence of dishonest tables is searched for, not proved. On a stand-in for crypto3."),
    dict(
        id="C25", title="Reverse tables collected by several threads hold exactly the right pairs",
        statement="The pairs collected for the reverse tables of the hash are exactly the byte parities and digit sums that the sigma functions produce on the given words. This does not depend on how the words are divided among threads or how these are scheduled. No thread touches memory another one writes without holding the guard.",
        over=["inputs", "schedules"],
        quant="Random ranges of 32-bit words, including both ends and powers of two, divided among one to six threads; both digit bases.",
        tests="The tests of the generators are not built here and would go through all words for hours; none watches for races.",
        files=[B + "components/hashes/sha2/plonk/detail/sha_table_generators.hpp", B + "components/hashes/sha2/plonk/detail/split_functions.hpp"],
        mech=[("collecting threads", B + "components/hashes/sha2/plonk/detail/sha_table_generators.hpp"), ("remembered powers shared by the threads", B + "components/hashes/sha2/plonk/detail/split_functions.hpp")],
        observe=["every pair collected", "memory accesses of all threads"],
        technique="Thread sanitizer on the collecting functions; collected pairs compared with a bit-level model of the sigma functions",
        level_note="Random words and schedules the machine happens to produce; the thread sanitizer reports races of any schedule it can order. On a stand-in for crypto3."),
    dict(
        id="C26", title="Arithmetic modulo 2^255-19 is exact and refuses oversized numbers",
        statement="Sums, differences and products of numbers given in four limbs are the exact residues modulo 2^255-19, and 512-bit numbers are reduced exactly modulo the order of the Edwards curve group. The range gadget accepts exactly the numbers below 2^255-19 in limbs of proper size. Results and inputs are tied to the constraints, and the gadgets write only in their own rows and columns.",
        over=["inputs"],
        quant="All numbers as operands (both ends, sums around the modulus, equal and inverse operands, nearly all ones, random), oversized limbs; any start row and order of columns, one or two placements; exchanged inputs and results.",
        tests="The component tests need the proof system, use fixed numbers at row 0 in ordered columns and never a number to be refused.",
        files=[B + "components/algebra/fields/plonk/non_native/" + f + ".hpp" for f in ("addition", "subtraction", "multiplication", "range", "reduction")],
        mech=[("carries between limbs", B + "components/algebra/fields/plonk/non_native/subtraction.hpp"), ("pieces of limbs and the top limb", B + "components/algebra/fields/plonk/non_native/range.hpp")],
        observe=["every cell written", "constraints, selectors and copies", "results of the circuit, the assignment and the assignment without constraints"],
        technique=SAN + "on placed gadgets; results compared with integer arithmetic, each table judged by an independent evaluator and attacked by exchanged inputs and results",
        level_note="Random numbers and placements; dishonest tables only by exchanged cells, since the pieces of limbs are limited by no constraint. On a stand-in for crypto3."),
    dict(
        id="C27", title="Curve gadgets give the exact sum, multiple or scalar for every point",
        statement="Choosing, doubling, adding and multiplying points of the Edwards curve modulo 2^255-19, and adding and multiplying points of the native curves, give the point the group law defines, also for equal, opposite, small-order and neutral points. The scalar that stands for a challenge is the one the endomorphism defines. Every input is tied, and for native curves no table satisfies the constraints with another result.",
        over=["inputs"],
        quant="Random and special points and scalars, both native curves; any start row and order of columns, one or two placements; exchanged inputs and results, kernel search over all cells for native curves.",
        tests="The component tests need the proof system, use a handful of fixed points at row 0 in ordered columns and no dishonest tables.",
        files=[B + "components/algebra/curves/edwards/plonk/non_native/" + f + ".hpp" for f in ("bool_scalar_multiplication", "doubling", "complete_addition", "variable_base_multiplication_per_bit", "variable_base_multiplication")] + [B + "components/algebra/curves/pasta/plonk/" + f + ".hpp" for f in ("unified_addition", "variable_base_scalar_mul", "endo_scalar")],
        mech=[("steps along the scalar's bits", B + "components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp"), ("cases of the addition", B + "components/algebra/curves/pasta/plonk/unified_addition.hpp"), ("sub-gadgets placed below each other", B + "components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp")],
        observe=["every cell written", "constraints, selectors and copies", "results of the circuit, the assignment and the assignment without constraints"],
        technique=SAN + "on placed gadgets; results compared with the group law on big integers, each table judged by an independent evaluator, its cells exchanged and (native curves) its constraint Jacobian searched for movable results",
        level_note="Random points, scalars and placements; absence of dishonest tables is searched for to first order, not proved. On a stand-in for crypto3."),
    dict(
        id="C28", title="A zkEVM trace satisfies the circuit exactly when its steps are right",
        statement="Whatever sequence of the implemented operations is executed on whatever words, the trace satisfies the constraints, shows operands and the result the EVM defines, and leaves the stack as announced. Changing an operand or result chunk, the operation, the rows left, the start mark or a value kept during an operation is refused. A selector activates exactly the option given to it, and a step rule accepts exactly the next values it describes.",
        over=["programs", "inputs"],
        quant="Sequences of up to five operations on random and edge 256-bit words from any start row and table size; selectors over 2 to 160 options; all combinations of step rules; every chunk, mark and kept value exchanged, rows and operations passed off as others.",
        tests="The opcode tests need the proof system, run a few fixed words of one operation and never look at a dishonest trace or at mixed operations.",
        files=[B + "zkevm/" + f for f in ("zkevm_circuit.hpp", "zkevm_operation.hpp", "operations/add_sub.hpp", "operations/mul.hpp", "operations/div.hpp", "operations/iszero.hpp", "state.hpp", "state_selector.hpp", "zkevm_word.hpp", "stack.hpp")],
        mech=[("which row of an operation a constraint holds for", B + "zkevm/zkevm_circuit.hpp"), ("carries of the product", B + "zkevm/operations/mul.hpp"), ("choice by pair and parity", B + "zkevm/state_selector.hpp")],
        observe=["every cell written", "constraints and selectors", "the stack after each operation"],
        technique=SAN + "on executed traces; words compared with own 256-bit arithmetic, each trace judged by an independent evaluator and its cells, rows and operations exchanged",
        level_note="Random programs and words; chunks are not range checked by the circuit, so only exchanges within 16 bits are tried. On a stand-in for crypto3."),
    dict(
        id="C29", title="The table of contract code marks operations and pushed data as the EVM does",
        statement="For every set of contracts the table lists header and bytes with position, remaining length and hash, and marks a byte as an operation exactly when it is not data pushed by an earlier one. The honest table satisfies the constraints; changing any mark, position, byte, length, running sum or copied value, or any input, is refused. All inputs are listed.",
        over=["inputs"],
        quant="One to three contracts of 0 to 90 bytes, valid operations and all push lengths, truncated pushes, with and without spare rows; every cell of every row changed twice, every input exchanged.",
        tests="The bytecode test needs the proof system and uses two fixed contracts without dishonest tables.",
        files=[B + "zkevm/bytecode.hpp", B + "lookup_library.hpp"],
        mech=[("push bytes left", B + "zkevm/bytecode.hpp"), ("opcode table", B + "lookup_library.hpp")],
        observe=["every cell written", "constraints, lookups and copies", "the list of inputs"],
        technique=SAN + "on filled tables; rows compared with a model of push data, each table judged by an independent evaluator and its cells and inputs exchanged",
        level_note="Random contracts; the hash itself is not computed by the circuit and is taken as given. On a stand-in for crypto3."),
    dict(
        id="C30", title="SHA-256 and SHA-512 gadgets compute the hash functions and bind every step",
        statement="For every message block and state the compression gadgets and the hash gadgets built from them produce the words the standard defines, in tables that satisfy the constraints. Exchanging an input, a result, a step of the rounds, or claiming the rounds of another message, is refused. The result does not depend on which columns and rows the gadget was given.",
        over=["inputs", "configurations"],
        quant="Random, all-zero, all-one, single-bit and alternating words for the message and the state; any column order, spare columns and start rows; filled cells, inputs and results exchanged; tables of a prover running the rounds on another message, from another state or to other ends.",
        tests="The SHA tests need the proof system, use a few fixed words at row 0 in column order and no dishonest tables.",
        files=[B + "components/hashes/sha2/plonk/" + f for f in ("sha256_process.hpp", "sha256.hpp", "sha512_process.hpp", "sha512.hpp", "decomposition.hpp")],
        mech=[("round copies", B + "components/hashes/sha2/plonk/sha256_process.hpp"), ("block constants", B + "components/hashes/sha2/plonk/sha512.hpp")],
        observe=["every cell written", "constraints, lookups and copies", "results against own SHA-2", "the list of inputs"],
        technique=SAN + "on filled tables; results compared with an own SHA-2, each table judged by an independent evaluator, then cells, inputs, results and whole runs of rounds exchanged",
        level_note="Random words; gaps in the constraints of upstream that need another layout are known findings. The SHA-256 half runs without the address sanitizer because of its 5.7 million row tables. On a stand-in for crypto3."),
    dict(
        id="C31", title="Poseidon and limb gadgets compute their functions and bind every step",
        statement="For every state both Poseidon gadgets produce the permutation with the published parameters, at any width they accept, in tables that satisfy the constraints; the limb gadgets split and join numbers as 64-bit words. Exchanging an input, a result or an intermediate value is refused. Nothing depends on the columns, rows and gates already taken by others.",
        over=["inputs", "configurations"],
        quant="Random, small, zero and negative states, numbers at both ends of the field and limbs of all ones; pallas and vesta; widths 3 to 165, any column order, start row and gates of others; filled cells, inputs and results exchanged.",
        tests="The Poseidon tests need the proof system, start at row 0 of an empty circuit in column order and try no dishonest tables.",
        files=[B + "components/hashes/poseidon/plonk/poseidon.hpp", B + "components/hashes/poseidon/plonk/poseidon_constants.hpp", B + "components/systems/snark/plonk/flexible/poseidon.hpp", B + "components/systems/snark/plonk/kimchi/detail/limbs.hpp"],
        mech=[("round gates", B + "components/systems/snark/plonk/flexible/poseidon.hpp"), ("limb carries", B + "components/systems/snark/plonk/kimchi/detail/limbs.hpp")],
        observe=["every cell written", "constraints and copies", "results against own permutation", "selectors switched on"],
        technique=SAN + "on filled tables; results compared with an own permutation on the published parameters, each table judged by an independent evaluator and then cells, inputs and results exchanged",
        level_note="Random states; the own permutation is checked against the published answer for the zero state. On a stand-in for crypto3."),
    dict(
        id="C18", title="A component stretched over a wider table computes and checks the same",
        statement="Laying a component out over several times its columns gives the same results, a table that satisfies the moved constraints, and keeps within the rows and columns announced. Every cell, constant and input that mattered before still does: changing one is refused. Several instances side by side need no further gates and do not disturb each other.",
        over=["programs", "inputs", "configurations"],
        quant="Random components of 1 to 14 blocks of 1 to 3 rows with up to 6 kinds of gates, constants read by gates, by copies or by both, results of one block used by others; stretched 1 to 5 times, up to 3 instances, inputs anywhere; every cell, constant and input changed once.",
        tests="The stretched tests need the proof system, stretch six components with inputs in the first public rows at row 0, and change nothing.",
        files=[B + "component_stretcher.hpp", B + "utils/gate_mover.hpp", B + "detail/huang_lu.hpp"],
        mech=[("zones", B + "component_stretcher.hpp"), ("moving gates", B + "utils/gate_mover.hpp")],
        observe=["every cell, constant and selector written", "moved constraints and copies", "results against direct computation"],
        technique=SAN + "on generated components; the stretched table judged by an independent evaluator, results compared with direct computation, every cell, constant and input changed and judged again",
        level_note="Random components with one constant column and no lookups (stretching does not support them). On a stand-in for crypto3."),
]
NOT_APPLICABLE = []
NOTES = "Each check rebuilds its harnesses from /repo's working tree into /verif/.build; VERIF_SEED drives every random choice."
