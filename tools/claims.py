CLAIMS = {
"F01": ("relational abstract interpretation of the SSA: every result as a normal form over GF(2^8), loops by closed forms",
        "Decides equality with field arithmetic for all operands, including what the table constants contain; the analysis engine itself is trusted."),
"F02": ("relational abstract interpretation of the SSA and of the decoded assembly (per-lane transfer functions)",
        "Decides, per build configuration and CPU feature, that element i of the result is the scalar operation on element i for every length and offset; trusts the table of instruction semantics."),
"F03": ("relational abstract interpretation: bounds obligation for every load, store and slice of Go and assembly",
        "Every access is proved within its vector or the tables for every length; trusts the table of instruction semantics."),
"F04": ("must-dataflow of detected CPU features (SSA) against the features the decoded assembly needs",
        "Sound for every path to every reference of an assembly routine; trusts cpuid and the table of instruction features."),
"F05": ("type checking of every build configuration; symbol agreement between Go and assembly",
        "Decides compilation up to the Go type checker and assembler, for 18 platforms x 2 tag sets (thorough: all platforms x 3)."),
"P01": ("relational abstract interpretation of the SSA: splitting and combining as closed forms over GF(2^8), composed",
        "Decides the round trip for all secrets, share counts and thresholds by proving each part (tags, polynomial form, interpolation) exactly; trusts the analysis engine."),
"P02": ("relational abstract interpretation of the SSA: injectivity and non-zero facts of the tag bytes",
        "Decides distinctness for every share count; relies on the contracts of the generator (R03) and of math/rand.Perm."),
"P03": ("relational abstract interpretation of the SSA and decoded assembly: every share byte as a polynomial normal form",
        "Decides, for all lengths, counts and thresholds, that every share byte is the polynomial with the secret byte as constant term at the share's tag."),
"P04": ("provenance in the relational abstract interpretation: every coefficient is one draw, and draws are injective in (byte, degree)",
        "Decides which draw each coefficient is for all sizes; the quality of crypto/rand itself is trusted."),
"P05": ("relational abstract interpretation of the SSA: path facts against the documented validity, every run-time check an obligation",
        "Decides exact acceptance and absence of panics for all arguments; bounds slice lengths by 2^47."),
"P06": ("relational abstract interpretation of the SSA: allocation identity, reachability and disjointness of the results",
        "Decides count, lengths, and ownership (including spare capacity) of the shares on every path."),
"P07": ("relational abstract interpretation of the SSA: path facts against the validity of the share list, every run-time check an obligation",
        "Decides, for all share lists, that errors and successes are returned exactly as stated and that nothing panics; trusts the analysis engine and bounds slice lengths by 2^47."),
"P08": ("relational abstract interpretation of the SSA: the result as a closed-form Lagrange sum over GF(2^8)",
        "Decides equality of every result byte with the Lagrange sum for every number and content of shares; trusts the analysis engine."),
"P09": ("relational abstract interpretation of the SSA: counts, tags and Lagrange sums of the regenerated shares",
        "Decides the statement for all share lists, counts and random outcomes; trusts the analysis engine."),
"K02": ("relational abstract interpretation of the SSA: path facts against the documented validity, share sizes as closed forms, every run-time check an obligation",
        "Decides exact acceptance, absence of panics, share count and size for all arguments; trusts the model of reedsolomon, crypto/aes and crypto/cipher; bounds slice lengths by 2^47."),
"K04": ("provenance in the relational abstract interpretation: secret, key and key-stream bytes as symbolic terms followed into every share byte",
        "Decides what every byte of every share is for all sizes; the strength of AES-OFB and of the random source is trusted."),
"R01": ("relational abstract interpretation of the SSA: constructor, any history, then a read, with key-stream positions; who-may-access analysis of the generator's fields",
        "Decides, after any history of reads and for every buffer, which key-stream bytes a read hands out; atomicity by the single atomic add (or lock) per read; trusts aesctrat."),
"R03": ("relational abstract interpretation of the SSA: permutation and injectivity facts kept through the shuffle and the rejection loop",
        "Decides distinctness, range and length for every n and every outcome of the generator; trusts the analysis engine."),
"R04": ("relational abstract interpretation of the SSA: constructor, any history, then a read or a permutation, with key-stream positions",
        "Decides, after any history of reads and for every buffer and n; trusts crypto/aes and crypto/cipher."),
"X05": ("who-may-call analysis over the closed reference graph (SSA)",
        "Sound for the library's own code; trusts that the dependencies do not write or exit on their own."),
"X04": ("path-sensitive error-flow analysis over the SSA control-flow graph; relational abstract interpretation of the results of the exported operations",
        "Error flow covers every call in the library; the data-or-error part covers every exported splitting, combining and regenerating function except krawczyk.Combine's data (its error flow is covered)."),
"X06": ("relational abstract interpretation of the SSA: the worker against contracts of the operations it dispatches to",
        "Decides for every algorithm name, every argument and every worker; the operations themselves are the other properties."),
"R05": ("path-sensitive error-flow analysis over the SSA control-flow graph, interprocedural",
        "Sound for every failing read reported by an error; trusts that sources report failures as errors."),
"X01": ("effects (writes, appends into spare capacity) and reachability in the relational abstract interpretation; may-alias flow over the SSA for krawczyk.Combine",
        "Decides for every input, length and capacity; for krawczyk.Combine a flow-insensitive alias flow that trusts the erasure code to fill only missing fragments."),
"X03": ("typestate of pooled buffers in the relational abstract interpretation (failing draws included); ownership flow over the SSA of the pool",
        "Decides every path of every operation and every implementation of the pool by channel or sync.Pool."),
"R02": ("provenance in the relational abstract interpretation: every encryption key, generator seed and coefficient as a draw",
        "Decides, for all sizes, which source every key, seed and coefficient byte comes from; the quality of crypto/rand itself is trusted."),
"X07": ("termination: ranking arguments over the SSA loops and, where those do not suffice, loop bounds in the relational abstract interpretation; typestate of locks, channels and wait groups",
        "Decides every loop, recursion and blocking operation of the library for all inputs and random outcomes; dependencies and the operating system are trusted to return."),
"X02": ("shared-memory and lock-set flow over the SSA; goroutine lifetimes as typestate; goroutine accesses proved disjoint in the relational abstract interpretation",
        "Decides every access to memory shared between calls and every pair of goroutine instances for all sizes; trusts that dependencies are safe for concurrent use where documented."),
}
NA = {
"K01": "krawczyk.Combine compacts its list by two loops that must agree on a count of non-nil entries and scatters fragments by the shares' last bytes; neither loop has a closed form in the analyser's loop domain, so the run-time checks that follow cannot be discharged. Its error flow (X04), aliasing (X01, X02), termination (X07) and silence (X05) are decided.",
"K03": "Reading fields back at the encoder's positions needs what the decoder's compaction and scatter loops leave where; those index maps (a count, the shares' last bytes) are outside the analyser's loop domain. The encoder side is decided by K02 and K04.",
"N01": "Information-theoretic secrecy quantifies over probability distributions of shares; its structural conditions (fresh, independent, uniformly drawn coefficients and the polynomial form) are P03, P04 and R02, and the remaining step is a mathematical theorem, not a property of the source.",
"N02": "Throughput on real hardware is a measured quantity; no static argument bounds it.",
"N03": "The erasure code is the external dependency klauspost/reedsolomon; its matrix inversion over run-time fragment sets is a numerical result outside this repository's source. The use of the code is decided by K03.",
}
