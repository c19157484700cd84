# Which harnesses decide which property, and what a meaningful run must have observed.
TARGETS = {
    "manifest": {"src": ["manifest.cpp"]},
    "packing": {"src": ["packing.cpp"]},
    "loaders": {"src": ["loaders.cpp"], "shim": True},
    "tables": {"src": ["tables.cpp"], "shim": True, "libs": ["-lboost_random"]},
    "split": {"src": ["split.cpp"], "shim": True},
    "gates": {"src": ["gates.cpp"], "shim": True, "libs": ["-lboost_random"]},
    "proxy": {"src": ["proxy.cpp"], "shim": True, "libs": ["-lboost_random"]},
    "batch": {"src": ["batch.cpp"], "shim": True, "libs": ["-lboost_random"]},
    "native1": {"src": ["native.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=1"]},
    "native2": {"src": ["native.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=2"]},
    "native3": {"src": ["native.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=3"]},
    "bits1": {"src": ["bits.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=1"]},
    "bits2": {"src": ["bits.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=2"]},
    "steps1": {"src": ["steps.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=1"]},
    "steps2": {"src": ["steps.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=2"]},
    "steps3": {"src": ["steps.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=3"]},
    "foreign1": {"src": ["foreign.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=1"]},
    "foreign2": {"src": ["foreign.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=2"]},
    "foreign3": {"src": ["foreign.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=3"]},
    "evm1": {"src": ["evm.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=1"], "weight": 3},
    "evm2": {"src": ["evm.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=2"]},
    "evm3": {"src": ["evm.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=3"]},
    "sha1": {"src": ["sha.cpp"], "shim": True, "san": "ubsan", "opt": "2", "libs": ["-lboost_random"], "flags": ["-DPART=1", "-D_GLIBCXX_ASSERTIONS"], "weight": 2},
    "sha2": {"src": ["sha.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=2"]},
    "poseidon": {"src": ["poseidon.cpp"], "shim": True, "libs": ["-lboost_random"]},
    "stretch": {"src": ["stretch.cpp"], "shim": True, "libs": ["-lboost_random"]},
    "stretch2": {"src": ["foreign.cpp"], "shim": True, "libs": ["-lboost_random"], "flags": ["-DPART=4"]},
    "announce": {"src": ["announce.cpp"], "shim": True, "libs": ["-lboost_random"]},
    "opcodes": {"src": ["opcodes.cpp"], "shim": True},
    "parallel": {"src": ["parallel.cpp"], "shim": True, "san": "tsan"},
}

CHECKS = {
    "C05": {"targets": ["manifest"], "floor": 5000, "need": ["chained operations", "merges compared", "grand pairs", "grand intersections", "sets grown"],
            "rule": "one evaluation = one query or combination answered by the code and compared with the set model; distinct by operands and operation"},
    "C06": {"targets": ["manifest"], "floor": 300, "need": ["gate manifests", "crowded gate manifests"],
            "rule": "one evaluation = one merged collection whose announced count was compared with the reference count; distinct by the merge history"},
    "C07": {"targets": ["packing"], "floor": 5000, "need": ["optimum by exact search", "optimum known by construction", "crowded instances"],
            "rule": "one evaluation = one packing whose placement and heaviest load were judged; distinct by sizes and agent amount"},
    "C08": {"targets": ["tables"], "floor": 100000, "need": ["tables compared", "table rows compared"],
            "rule": "one evaluation = one row a table must offer, compared as sorted lists of row fingerprints; distinct by field, table and row"},
    "C09": {"targets": ["loaders"], "floor": 1000, "need": ["tables read", "loads with a usable file", "built-in tables read"],
            "rule": "one evaluation = one load whose outcome and table were compared with the text that was offered; distinct by text and candidates"},
    "C10": {"targets": ["split"], "floor": 5000, "need": ["splits of bit strings", "splits of sparse sums", "splits of majority sums", "splits of choice sums", "round functions"],
            "rule": "one evaluation = one split recombined and compared with a digit model; distinct by input and split shape"},
    "C11": {"targets": ["gates"], "floor": 1000, "need": ["gates added", "lookup gates added", "dynamic table selectors", "near gates", "gates put under a chosen selector", "circuits made of constraint systems", "circuits copied"],
            "rule": "one evaluation = one added gate whose selector was compared with a model that decides gate equality by canonical polynomials; distinct by history"},
    "C12": {"targets": ["gates"], "floor": 20000, "need": ["satisfied tables", "tables breaking a gate", "tables breaking a lookup", "tables breaking a copy", "tall tables", "selectors other than one"],
            "rule": "one evaluation = one answer of the satisfiability check compared with an independent evaluation of the same circuit and table"},
    "C13": {"targets": ["gates"], "floor": 1000, "need": ["answers strong yes", "answers strong no", "answers weak yes", "answers weak no"],
            "rule": "one evaluation = one connectedness answer (or list of islands) compared with a search over an explicitly built graph"},
    "C14": {"targets": ["batch"], "floor": 2000, "need": ["batched requests", "cells damaged", "copies between results", "tables widened between requests"],
            "rule": "one evaluation = one batched circuit judged whole, or one of its cells damaged and the circuit judged again; distinct by circuit and cell"},
    "C15": {"targets": ["batch"], "floor": 1000, "need": ["constants batched", "constants copied to each other"],
            "rule": "one evaluation = one placement of batched constants compared with a model of the free cells, or one placed constant damaged"},
    "C16": {"targets": ["proxy"], "floor": 5000, "need": ["satisfied proxies", "broken proxies", "own cells read", "foreign cells read"],
            "rule": "one evaluation = one call through a proxy after which circuit, table and the recorded uses were compared with a mirror, or one satisfiability answer of a proxy"},
    "C17": {"targets": ["tables"], "floor": 300, "need": ["reservations", "dynamic reservations", "dynamic definitions after reading", "refused reservations", "reserved tables read back", "tables registered again"],
            "rule": "one evaluation = one state of the library compared with a model of the calls made so far; distinct by call history"},
    "C20": {"targets": ["proxy"], "floor": 2000, "need": ["exported rows compared", "exported constraints found"],
            "rule": "one evaluation = one exported text parsed and compared with the table or circuit it came from"},
    "C21": {"targets": ["native1", "native2", "native3"], "floor": 2000, "need": ["rows spliced", "values misread", "results compared", "inputs exchanged", "refused inputs", "forgeries attempted", "results found rigid", "results without constraints", "circuits without values", "inputs listed"],
            "rule": "one evaluation = one placed gadget judged by an independent evaluator and then attacked; distinct by gadget, inputs and placement"},
    "C22": {"targets": ["bits1", "bits2"], "floor": 800, "need": ["rows spliced", "values misread", "results compared", "inputs exchanged", "refused inputs", "forgeries attempted", "results found rigid", "results without constraints", "circuits without values", "inputs listed"],
            "rule": "one evaluation = one placed gadget judged by an independent evaluator and then attacked; distinct by gadget, inputs and placement"},
    "C23": {"targets": ["announce"], "floor": 5000, "need": ["manifests asked again", "gadgets placed together"],
            "rule": "one evaluation = one announcement compared with that of a process never asked before, or two gadgets built in one circuit whose gates and rows were compared with what was announced"},
    "C24": {"targets": ["steps1", "steps2", "steps3"], "floor": 3000, "need": ["rows spliced", "values misread", "results compared", "inputs exchanged", "refused inputs", "forgeries attempted", "results found rigid", "results without constraints", "values filled in alone", "circuits without values", "inputs listed"],
            "rule": "one evaluation = one placed gadget judged by an independent evaluator and then attacked; distinct by gadget, inputs and placement"},
    "C25": {"targets": ["parallel"], "floor": 5000, "need": ["threads run", "pairs compared"],
            "rule": "one evaluation = one word whose pairs were collected by some thread and compared with a model of the functions; distinct by word and base"},
    "C26": {"targets": ["foreign1"], "floor": 800, "need": ["rows spliced", "values misread", "results compared", "inputs exchanged", "refused inputs", "results exchanged", "results without constraints", "circuits without values", "inputs listed"],
            "rule": "one evaluation = one placed gadget judged by an independent evaluator and then attacked; distinct by gadget, inputs and placement"},
    "C27": {"targets": ["foreign2", "foreign3"], "floor": 800, "need": ["rows spliced", "values misread", "results compared", "inputs exchanged", "refused inputs", "results exchanged", "results found rigid", "circuits without values", "inputs listed"],
            "rule": "one evaluation = one placed gadget judged by an independent evaluator and then attacked; distinct by gadget, inputs and placement"},
    "C28": {"targets": ["evm1", "evm2"], "floor": 1500, "need": ["carries split", "results denied", "traces satisfied", "words held", "answers held", "step cells held", "rows exchanged", "operations exchanged", "options judged", "selections exchanged", "steps judged", "words split", "stack steps"],
            "rule": "one evaluation = one executed trace, selection or step judged by an independent evaluator and then attacked, or one run of word and stack operations compared with a model; distinct by kind and size"},
    "C29": {"targets": ["evm3"], "floor": 200, "need": ["code rows read", "code tables satisfied", "code cells held", "bytes passed off", "code inputs tied", "code read", "false code refused", "readings held"],
            "rule": "one evaluation = one table of contract code compared with a model row by row, judged by an independent evaluator and then attacked cell by cell"},
    "C30": {"targets": ["sha1", "sha2"], "floor": 600, "need": ["values misread", "results compared", "inputs exchanged", "results exchanged", "results without constraints", "values filled in alone", "circuits without values", "inputs listed", "dishonest tables", "filled cells exchanged"],
            "rule": "one evaluation = one placed gadget judged by an independent evaluator and then attacked; distinct by gadget, inputs and placement"},
    "C31": {"targets": ["poseidon"], "floor": 600, "need": ["rows spliced", "values misread", "results compared", "inputs exchanged", "results exchanged", "results found rigid", "values filled in alone", "circuits without values", "inputs listed", "filled cells exchanged"],
            "rule": "one evaluation = one placed gadget judged by an independent evaluator and then attacked; distinct by gadget, inputs and placement"},
    "C18": {"targets": ["stretch", "stretch2"], "floor": 700, "need": ["gadgets stretched", "components stretched", "results compared", "inputs exchanged", "cells held", "constants held"],
            "rule": "one evaluation = one random component or gadget of the library laid out over a wider table, judged by an independent evaluator and then attacked cell by cell; distinct by component and placement"},
    "C19": {"targets": ["opcodes"], "floor": 400, "need": ["opcodes", "unassigned values refused", "lookup table rows"],
            "rule": "one evaluation = one instruction, value or table row compared with the published instruction list"},
}
