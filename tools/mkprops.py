#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
SH, PO, TB = "shamir/shamir.go", "shamir/polynomial.go", "shamir/tables.go"
KR, AE = "krawczyk/krawczyk.go", "krawczyk/aes.go"
CS, RD, WK, UT = "csprng/csprng.go", "randomizer/randomizer.go", "worker/worker.go", "utils/bufferpool.go"
GA, GT, GV = "galois/galois.go", "galois/tables.go", "galois/vector_noasm.go"
GX = ["galois/vector.go", "galois/vector_amd64.go", "galois/vector_amd64.s", "galois/vector_arm64.go", "galois/vector_arm64.s"]

p("P01", "Any threshold-many Shamir shares give back exactly the secret",
  "For every non-empty secret, every 2 <= threshold <= parts <= 255 and every Shamir splitting entry point, combining any set of at least `threshold` distinct shares of one split, in any order, returns exactly the secret, byte for byte.",
  ["inputs"], "all secrets, parameters, share subsets, orders, splitting variants and random draws",
  "Tests combine the first few shares of a handful of lengths and parameters; the space of lengths x parameters x subsets x random draws cannot be sampled, and rare tags or large parameters are never hit.",
  [SH, PO, TB, GA, GT, GV] + GX,
  [("split: polynomial per secret byte, evaluated at the tag", SH + ":Split*"), ("combine: Lagrange interpolation at 0", SH + ":Combine"), ("field arithmetic", PO + ":mult,div,add")],
  ["shamir.Split*", "shamir.Combine"])
p("P02", "The tags of one split are pairwise distinct and never zero",
  "In every Shamir split, by every entry point and for every outcome of the random source, the last byte (the tag) of each share is non-zero and no two shares have the same tag.",
  ["inputs"], "all parameters and all outcomes of the random source",
  "A zero or repeated tag needs a particular random outcome (a zero tag hands the whole secret to one holder); tests draw a few random tags and never look at them.",
  [SH, CS], [("x coordinates are a prefix of a permutation / unique bytes, plus one", SH + ":Split*"), ("unique bytes", CS + ":GetUniqueBytes"), ("permutation", CS + ":Perm")],
  ["last byte of every share returned by shamir.Split*"])
p("P03", "Every share is the sharing polynomial evaluated at the share's tag",
  "In every Shamir split and for every byte position there is one polynomial over GF(2^8), common to all shares, of degree at most threshold-1 and with the secret byte as its value at zero, such that the byte of each share at that position is the polynomial's value at that share's own tag. This holds for every splitting entry point, secret length, number of parts and threshold.",
  ["inputs"], "all secrets, parameters, entry points and random draws",
  "Tests check reconstruction for a few lengths and thresholds, and from the first shares only; a wrong value at one position, length, share index or threshold is not seen.",
  [SH, PO, GA, GV] + GX, [("Horner evaluation", PO + ":evaluatePolynomialsAt*,evaluate"), ("polynomial set-up and transposition", PO + ":makePolynomial*,transpose*")],
  ["shares returned by shamir.Split*"])
p("P04", "Sharing polynomials have fresh, unpredictable coefficients",
  "In every Shamir split, all threshold-1 non-constant coefficients of the polynomial of every secret byte are drawn during that call from a cryptographically secure source seeded by the operating system (or from the generator the caller passed in). No two (byte, power) pairs, within a call or across calls, share a draw, and no coefficient is constant, left over from earlier use, or derived from the secret or the tags.",
  ["inputs", "histories"], "all secrets, parameters and call histories",
  "Reused or predictable coefficients leave reconstruction intact, so no functional test notices; freshness is a property of all pairs of draws in all histories.",
  [SH, PO, CS], [("coefficients filled by the random source over the whole buffer", PO + ":makePolynomial*"), ("crypto/rand, csprng", CS)],
  ["coefficient buffers used by shamir.Split*"])
p("P05", "Shamir splitting accepts exactly the valid parameters and never panics",
  "Every Shamir splitting entry point returns an error and no shares when threshold < 2, parts < threshold, parts > 255 or the secret is empty, for all integers including negative ones. For all other inputs it returns shares and no error unless the random source fails, and it never panics or indexes out of range.",
  ["inputs"], "all integers parts and threshold, all secrets, all entry points",
  "Tests never pass invalid parameters and use small valid ones; the boundary values and each variant's own copy of the checks are unexercised.",
  [SH, PO], [("sanity checks", SH + ":Split*")], ["error and shares returned by shamir.Split*"])
p("P06", "Shares have the documented shape and own their memory",
  "Every successful Shamir split returns exactly `parts` shares, each exactly one byte longer than the secret. The shares do not overlap each other, the secret, or any memory the library keeps, including the spare capacity behind a share: overwriting or appending to one share never changes another share or a later call.",
  ["inputs", "histories"], "all secrets, parameters, entry points and later uses of the shares",
  "No test checks capacities or writes to a share after the split; overlap only shows through append or reuse.",
  [SH, PO, UT], [("output allocation", SH + ":Split*"), ("results copied out of pooled buffers", PO + ":evaluatePolynomialsAt*")], ["slices returned by shamir.Split*"])
p("P07", "Malformed share sets are rejected with an error, never a panic",
  "Combining or regenerating from Shamir shares returns an error and no data when fewer than two shares are given, a share is shorter than two bytes (or nil), shares differ in length, or two shares have the same tag. For every other list of byte strings it succeeds, and for no input does it panic, divide by zero or index out of range.",
  ["inputs"], "all lists of byte strings, of any lengths and contents",
  "Tests only combine well-formed shares.",
  [SH, PO], [("length and duplicate checks", SH + ":Combine,Regenerate"), ("div panics on zero", PO + ":div")], ["shamir.Combine, shamir.Regenerate"])
p("P08", "Combining interpolates all given shares at zero",
  "For every accepted share set, combining returns one byte less than the share length, and each byte is the value at zero of the unique polynomial of lowest degree through the points (tag, byte) of all the given shares. The result does not depend on the order of the shares.",
  ["inputs"], "all accepted share sets of any size up to 256 shares",
  "Tests combine 2 to 20 shares of one split; other share counts, tags and byte values are unsampled.",
  [SH, PO, TB], [("Lagrange interpolation", PO + ":interpolatePolynomial")], ["shamir.Combine"])
p("P09", "Regenerated shares are new points of the same sharing",
  "Regenerating returns exactly the requested number of shares, each as long as the given ones. Every new share has a non-zero tag different from the tags of all given and all other new shares, and at every byte position holds the value at its tag of the lowest-degree polynomial through the given shares. A negative count, or one that makes given and new shares exceed 255, gives an error and no shares.",
  ["inputs"], "all accepted share sets, all counts, all outcomes of the random source",
  "Tests regenerate 4 or 5 shares and look at two; tag collisions with given or new shares depend on the random outcome.",
  [SH, PO], [("tag choice and interpolation", SH + ":Regenerate")], ["shamir.Regenerate"])

p("K01", "Short-share combine never panics, whatever it is given",
  "For every list of byte strings (including empty lists, nil or short entries, corrupt contents and repeated shares) and all integers parts and threshold, short-share (SSMS) combine returns either data or an error with no data; it never panics or indexes out of range.",
  ["inputs"], "all lists of byte strings and all integers",
  "Tests only combine shares that the library itself made, with the right parameters.",
  [KR, SH], [("share length and part-id checks", KR + ":Combine")], ["krawczyk.Combine"])
p("K02", "Short-share split is total on valid parameters and its shares have fixed size",
  "Short-share (SSMS) split succeeds, without panicking, for every non-empty secret below 4 GiB and every 2 <= threshold <= parts <= 255, unless the random source fails; for zero, negative or other parameters and for empty secrets it returns an error and no shares. It returns exactly `parts` shares, each of ceil(len(secret)/threshold)+22 bytes.",
  ["inputs"], "all secrets and all integer parameters",
  "Tests use a few lengths and parameters; failures depend on the relation between secret length, threshold and allocation sizes.",
  [KR, AE, SH], [("pipeline encrypt, encode, share key and length, assemble", KR + ":Split,SplitWithRandomizer")], ["krawczyk.Split*"])
p("K03", "Short-share combine undoes short-share split",
  "For every secret and valid parameters, the short-share decoder reads each field of a share (key-and-length share, code fragment, fragment index) from exactly where the encoder put it, uses the same erasure code, cipher and parameters, and trims to the encoded length, so that any `threshold` of the shares, in any order and with missing shares given as nil, give back the secret (given a correct erasure code).",
  ["inputs"], "all secrets below 4 GiB, parameters, share subsets and orders",
  "Tests combine a few subsets of a few lengths; large lengths, large part numbers and unusual subsets are unsampled.",
  [KR, AE], [("share layout", KR + ":Split,SplitWithRandomizer,Combine"), ("cipher", AE + ":encrypt,decrypt")], ["krawczyk.Split*, krawczyk.Combine"])
p("K04", "Short shares carry only ciphertext, under a fresh key that is itself shared",
  "In every short-share split the secret reaches the shares only as ciphertext under a 128-bit key drawn in full during that call from a cryptographically secure source (or the caller's generator). The key is used for that one secret and leaves the call only inside Shamir shares with the same parts and threshold.",
  ["inputs", "histories"], "all secrets, parameters and call histories",
  "A leaked, constant or reused key leaves reconstruction intact, so functional tests pass.",
  [KR, AE], [("key generation, encryption, key sharing", KR + ":Split,SplitWithRandomizer")], ["krawczyk.Split*"])

p("F01", "Scalar field operations are exactly GF(2^8)/0x11D",
  "Every scalar field operation (add, subtract, multiply by table, multiply by logarithms, divide, exponentiate to a non-negative power) returns the exact result in GF(2^8) with reduction polynomial 0x11D for all operands, and dividing a non-zero element by zero panics. Splitting and combining use the same field.",
  ["inputs"], "all operand pairs and all non-negative exponents",
  "No test covers the field functions or most of the 74 KB of tables; a wrong entry only matters for particular operand pairs.",
  [GA, GT, PO, TB], [("lookup tables", GT + "," + TB), ("operations", GA + "; " + PO + ":add,mult,div")], ["galois.Gal*", "shamir.Combine"])
p("F02", "Vector operations equal the scalar operations element by element",
  "Adding two vectors of equal length and multiplying a vector by a constant return, at every index, for every length and every constant, exactly what the scalar operations return, and a result of the same length. This holds for every implementation: each accelerated path of every CPU architecture and the portable ones.",
  ["inputs", "configurations"], "all lengths, contents, constants, CPU feature sets and architectures",
  "Tests run on one amd64 machine with AVX2: the SSSE3, non-SIMD and arm64 paths never run, and only some lengths do.",
  [GV, GT] + GX, [("block kernels and tail loops", ", ".join(GX))], ["galois.AddVector*, galois.MulConstVector*"])
p("F03", "Vector operations touch only their own vectors",
  "No vector operation, on any architecture and for any length, reads or writes memory outside the vectors it is given and the field tables. Adding vectors of different lengths panics before anything is written, in every implementation.",
  ["inputs", "configurations"], "all lengths (equal or not), CPU feature sets and architectures",
  "Out-of-bounds accesses by assembly are silent, and most paths do not run on the test machine.",
  [GV] + GX, [("loop counts in the assembly, length checks in the wrappers", ", ".join(GX))], ["galois.AddVector*, galois.MulConstVector*"])
p("F04", "Accelerated instructions run only where the CPU has them",
  "An accelerated vector routine is called only after the detection of every instruction-set extension its instructions need has succeeded for the running CPU; otherwise another path is taken.",
  ["configurations"], "all CPU feature sets",
  "The test machine has every extension, so a wrong guard is invisible there and an illegal instruction elsewhere.",
  ["galois/vector_amd64.go", "galois/vector_amd64.s"], [("feature flags set by cpuid", "galois/vector_amd64.go:init"), ("guards", "galois/vector_amd64.go:AddVector,MulConstVector")], ["calls of assembly routines"])
p("F05", "The library builds on every architecture, with and without assembly",
  "On every architecture Go supports (32-bit, 64-bit, big and little endian), with assembly enabled or disabled, every library package compiles, and each vector operation has exactly one implementation, whose assembly routines all exist.",
  ["configurations"], "all GOARCH values and the noasm, appengine and gccgo tags",
  "The tests build one configuration.",
  ["galois/vector.go", "galois/vector_amd64.go", "galois/vector_arm64.go", "galois/vector_amd64.s", "galois/vector_arm64.s", KR], [("build constraints", "galois/vector*.go")], ["go build for each configuration"])

p("R01", "A generator hands out every keystream byte once, in order",
  "Successive reads from one AES-CTR generator return consecutive segments of the keystream of its key and IV, starting at its beginning, whatever was in the buffers before. No keystream byte is ever handed out twice, also when one generator is read from several goroutines at once, and the key and IV never change after construction.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of reads of all lengths",
  "The one test reads once from offset 0; reuse shows only across reads, lengths or goroutines.",
  [CS], [("keystream offset", CS + ":Read")], ["csprng Read"])
p("R02", "Secrets are protected only by cryptographically secure randomness",
  "Every encryption key and polynomial coefficient the library uses, and the key and IV of every generator it makes, comes byte for byte from the operating system's secure random source, directly or through an AES-CTR generator keyed in full from it (or from the generator the caller supplies). No statistical or time-seeded generator ever influences them.",
  ["inputs", "histories"], "all call paths that produce key, IV or coefficient bytes",
  "Weak randomness passes every functional test.",
  [CS, RD, KR, PO], [("seeding", CS + ":NewCSPRNG; " + RD + ":NewRandomizer"), ("direct draws", PO + "; " + KR)], ["random bytes used as key, IV or coefficient"])
p("R03", "Permutations and unique bytes are what they say, for every size",
  "The CSPRNG's permutation of n returns each of 0..n-1 exactly once, and its unique-bytes function returns n pairwise distinct values, all below 255, for every n from 0 to 255 and every outcome of the generator. Neither ever panics, and neither can loop on without drawing new random bytes.",
  ["inputs"], "all n and all keystreams",
  "The one test draws a single permutation of size 255; failures depend on the keystream and on small n.",
  [CS], [("shuffle", CS + ":Perm"), ("rejection loop", CS + ":GetUniqueBytes")], ["csprng Perm and GetUniqueBytes"])
p("R04", "The stand-alone randomizer streams and permutes correctly",
  "Successive reads of the stand-alone randomizer return consecutive keystream of one AES-CTR stream, independent of earlier buffer contents, and its permutation of n returns each of 0..n-1 exactly once, for every n from 0 to 255, without panicking.",
  ["inputs", "histories"], "all n, keystreams and read sequences",
  "The package has no tests.",
  [RD], [("stream", RD + ":Read"), ("shuffle", RD + ":Perm")], ["randomizer Read and Perm"])
p("R05", "A failing random source never yields shares or keys",
  "If a read from a random source fails, the operation that needed it returns an error and no shares (or, where a generator is being constructed, panics); data obtained from a failed read is never used as a key, an IV or a coefficient.",
  ["fault_sequences"], "a failure at any read of any random source",
  "The random source never fails in a test.",
  [PO, SH, KR, CS, RD], [("error checks after each draw", PO + ":makePolynomial*; " + KR + "; " + CS)], ["errors of rand.Read"])

p("X01", "Callers' memory is neither modified nor retained",
  "Splitting, combining, regenerating and constructing generators never write to the secret, share or key buffers the caller passes in (including spare capacity behind them), and no result or library state refers to that memory after the call returns.",
  ["inputs", "histories"], "all inputs and all later uses of the buffers by the caller",
  "Tests do not compare inputs before and after or reuse buffers; a write may need a particular length or capacity.",
  [SH, PO, KR, AE, CS, WK], [("results are written to freshly allocated memory", SH + "; " + KR)], ["arguments of the exported functions"])
p("X02", "The package-level API is safe for concurrent use",
  "Any number of goroutines may split, combine and regenerate at once, also with one shared CSPRNG or worker: no memory is written by one call and read or written by another without synchronisation. Goroutines a call starts write only to disjoint parts of its result and have all finished when it returns.",
  ["schedules"], "all interleavings of any calls",
  "The parallel tests discard the results and run without the race detector.",
  [SH, PO, CS, UT, WK], [("no mutable shared state except channels and atomics", SH + "; " + CS), ("WaitGroup", SH + ":SplitP")], ["package-level variables, generator fields, goroutines"])
p("X03", "A pooled buffer has one owner at a time",
  "A buffer obtained from a pool is given back exactly once, on every way out of the function that took it (errors included), is not used after that, and never becomes part of a result. Taking from or giving to a pool never blocks and never yields the same buffer to two holders.",
  ["schedules", "histories", "fault_sequences"], "all paths and interleavings",
  "A leaked or doubly released buffer corrupts data only under particular interleavings.",
  [UT, SH, PO], [("channel with default cases", UT), ("Get and deferred Put", SH + "; " + PO)], ["utils.BytesBufferPool"])
p("X04", "A call returns either data or an error, and no failure is swallowed",
  "Every exported operation that can fail returns a non-nil error together with nil data, or a nil error together with data. An error reported by the random source, the cipher, the erasure code or a nested operation always makes the operation return an error.",
  ["inputs", "fault_sequences"], "all inputs and all failures of the layers below",
  "The layers below do not fail in tests, and tests often discard the error.",
  [SH, PO, KR, AE, WK], [("error returns", SH + "; " + KR + "; " + AE)], ["results of the exported functions"])
p("X05", "The library neither ends the process nor writes to its output",
  "No library operation terminates the process or writes to standard output, standard error or a log; failures are reported only to the caller.",
  ["inputs", "fault_sequences"], "all inputs and failures",
  "Tests do not provoke the failures and do not watch the output.",
  [SH, PO, KR, CS, RD, GA, UT, WK], [("errors are returned", SH + "; " + KR)], ["calls into os, log, fmt.Print*, syscall"])
p("X06", "The worker runs the algorithm that was asked for, in both directions",
  "For each algorithm name, splitting and combining through a worker behave exactly like splitting (with the worker's own generator) and combining with that algorithm directly, with the arguments passed on unchanged. Any other algorithm name gives an error and no data, in both directions.",
  ["inputs"], "all algorithm names, inputs and parameters",
  "The worker has no tests.",
  [WK], [("dispatch", WK + ":Split,Combine")], ["worker.Worker"])
p("X07", "Every operation terminates",
  "Every loop of the library runs a number of times bounded by its arguments, except the rejection sampling of tags, which draws new random bytes in every round and is entered only when an acceptable value exists. Nothing blocks indefinitely on a channel, lock or goroutine.",
  ["inputs", "schedules"], "all inputs and all outcomes of the random source",
  "Non-termination needs a particular random outcome, argument or schedule.",
  [SH, PO, KR, CS, RD, GA, UT], [("loop bounds", "all packages"), ("rejection loops", CS + ":GetUniqueBytes; " + SH + ":Regenerate")], ["loops and blocking operations"])

p("N01", "Fewer than threshold shares reveal nothing about the secret",
  "For every secret and parameters, the joint distribution of any threshold-1 shares of a Shamir split is (up to the strength of the generator) the same for all secrets of that length.",
  ["inputs"], "all secrets, parameters and share subsets, as a statement about distributions",
  "It is a statement about distributions, which no finite number of runs settles.",
  [SH, PO, CS], [("uniform independent coefficients", PO)], ["shamir.Split*"])
p("N02", "Splitting is fast: throughput scales with the vector unit",
  "Splitting large secrets is substantially faster than the byte-at-a-time original implementation on every supported CPU.",
  ["configurations", "inputs"], "all CPUs and secret sizes",
  "Benchmarks sample one machine.",
  [SH, PO] + GX, [("vectorised evaluation", PO)], ["throughput"])
p("N03", "The erasure code reconstructs from any threshold-many fragments",
  "For all data, parts and threshold the erasure code rebuilds the data from any `threshold` of the fragments.",
  ["inputs"], "all data, parameters and fragment subsets",
  "Subsets and parameters are too many to sample.",
  [KR], [("third-party Reed-Solomon library", "github.com/klauspost/reedsolomon")], ["krawczyk.Combine"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
