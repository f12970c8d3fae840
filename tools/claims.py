B = "Exhaustive within the bounds stated in the evidence, on the real code; trusts the reference model in harness/src and says nothing about values outside the enumerated alphabet."
CLAIMS = {
 "C01": ("exhaustive enumeration of documents from a schema model (attributes, forms, pairs, subsets, maximal documents, all single-node mutants), write-read-write fixpoint on the real code", B),
 "C02": ("exhaustive enumeration of documents from a schema model, conformance of every read value against the typed value the model assigns", B),
 "C03": ("exhaustive enumeration of documents from a schema model and of permutations of each ordered node, repeated operations compared byte for byte", B),
 "C04": ("exhaustive enumeration of (mapping type, foreign or extension key, position, value) against a schema model of recognised keys", B),
 "C05": ("exhaustive enumeration of all subsets, values and orders of competing keys against decision models, and of key orders of model documents", B),
 "C06": ("explicit-state automata of the documented grammars, conformance by exhaustive W-method and bounded word enumeration", B),
 "C07": ("exhaustive enumeration of all token sequences to a depth, and of products of parts, for every type with a string form, against reference parsers written from the documentation; every accepted value printed, serialized and read back on the real code", B),
 "C08": ("exhaustive enumeration of short and long values (field products, schema model documents, lists to a depth), conversions both ways against a model of what the short syntax can say", B),
 "C09": ("breadth-first search of the image editing state machine and all operation sequences to a depth, against a model of parts", B),
 "C10": ("exhaustive enumeration of documents: all tuples of up to four services over pools of uses, all definitions and orders, against a model of uses and definitions", B),
 "C11": ("exhaustive enumeration of ways to factor model documents into merge keys, of merge chains, of reader faults and of reading routes, against the expanded document", B),
 "C12": ("exhaustive enumeration of quantity strings (automaton words, boundary numbers, units) against big-integer models", B),
 "C13": ("exhaustive enumeration of all words over token alphabets to a depth for every string type, of all byte strings to a depth in document frames, of all single-node mutants of schema model documents, and of all image edit sequences to a depth, on the real code with overflow checks, under a supervisor that turns panics, aborts and hangs into violations", B),
 "C14": ("exhaustive enumeration of all pairs (and triples for orders) of values per type (all words to a depth, full numeric domains, products of parts, schema documents, editing histories) against the identity of their texts or parts, and of all key sets to a size for lookups", B),
 "C15": ("exhaustive enumeration of scalars (all token sequences to a depth, numeric boundaries) with all conversions, and of all lists, maps and item lists to a depth over adversarial entries, against a model of values", B),
 "C16": ("exhaustive enumeration of values from a schema model, conformance of is_empty, defaults and the written document against the model", B),
 "C17": ("exhaustive enumeration of sequences of platform parts, of all strings at one (thorough: two) edits from documented ones, and of all conversions, against the documented table", B),
 "C18": ("exhaustive enumeration of all 2^32 port pairs and of the short ranges state machine against an arithmetic model", B),
 "C19": ("exhaustive enumeration of the numeric domains (all 8-, 16- and 32-bit integers and f32 values, structured f64 values) and of integer boundaries at every numeric attribute, against range models", B),
 "C20": ("breadth-first search of the path editing state machine and all edit sequences to a depth, against a path model", B),
 "C21": ("exhaustive enumeration of the combinations of kinds and parts, each value built by every route and asked everything, against the document which writes the parts", B),
}
NOT_CLAIMED = {}
