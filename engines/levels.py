"""per property: (level, technique, what it assures and assumes)"""
NAMES = {"go": "Go", "typescript": "TypeScript", "c": "C", "csharp": "C#", "rust": "Rust", "zig": "Zig", "assemblyscript": "AssemblyScript", "swift": "Swift"}
# targets whose emitted code is under contract, and those that are only run
DEDUCTIVE = ["go", "typescript", "c", "csharp", "rust", "assemblyscript"]
RUN = ["zig"]
TEXT = ["swift"]


def names(ls):
    return ", ".join(NAMES[l] for l in ls)


GEN = ("contract-based deductive verification of the emitted code: on every run the writers in /repo emit 20 kernel protocols and 6 drawn from the seed, the target's own parser reads the text, "
       "each function is executed symbolically against a contract computed from the protocol (callees by contract, loops by checked inductive summaries), z3 discharges the obligations")
PY = ("contract-based deductive verification of the repository's Python: {} executed symbolically from its current source against a contract, "
      "loops by checked invariants and termination variants, z3 discharges the obligations")


def gen_note(extra=""):
    return (f"Proved for {names(DEDUCTIVE)}, for all values, lengths and iterations, on 20 kernel protocols that cover every member type, list, struct, enum and size type and 6 protocols drawn from the seed (a protocol that is neither is not covered by an obligation). "
            f"{names(RUN)}: bounded (compiled code against a reference codec), never counted as proved; {names(TEXT)}: no toolchain here" + (", text only. " if TEXT else ". ") + extra +
            "Assumes: the front ends and language semantics of bvc, standard-library contracts, lengths below 2^40 and encoded sizes that fit the target's position type, valid UTF-8, allocation succeeds.")


PYN = "Assumes: pyvc's semantics of the Python subset, z3's strings with the axioms in pyvc/core.py, contracts of tomllib, open, argparse and print; "
LEVELS = {}
for _p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18", "C19"]:
    LEVELS[_p] = ("proof", GEN, gen_note())
LEVELS["C11"] = ("proof", "contract-based deductive verification of the emitted C: ownership contracts (who owns which allocation before and after, frees exactly once, no access outside live memory) on the reading, creating, "
                 "destroying, processing and unpacking functions; on every run the writer in /repo emits the kernel protocols, clang's parser reads the text, each function is executed symbolically, every malloc may fail, "
                 "loops by checked inductive summaries, z3 discharges the obligations",
                 "Proved for C, for all inputs, lengths, iterations and allocation outcomes, on 20 kernel protocols and 6 drawn from the seed. A bounded run (address and undefined-behaviour sanitizers, one allocation failing at a time) is made as well. "
                 "Assumes: the front end and C semantics of bvc, malloc/calloc/free contracts (distinct fresh memory, malloc(0) not NULL), values handed to writers and destroyers are well formed (each pointer owned once, lengths as stated). "
                 "A function that stores one allocation in two places gets no verdict and is left to the bounded run.")
LEVELS["C12"] = ("proof", PY.format("Protocol.__init__ and Enum.__init__ of protocol.py"),
                 "For every document whose meta is a table and whose structs, messages and enums are arrays of tables (others: bounded). A bounded run of generated documents is made as well. " + PYN + "13 exception classes count as refusal of the document.")
LEVELS["C13"] = ("proof", PY.format("check_for_cycles of protocol.py, and its use in Protocol.__init__,"),
                 "For every graph of structs; termination by a variant. " + PYN + "structs are finitely many.")
LEVELS["C14"] = ("proof", PY.format("Enum.__init__ of protocol.py"),
                 f"For every table of values. That the writers emit the encoding: C05/C01 obligations for {names(DEDUCTIVE)}; bounded for {names(RUN)}. " + PYN)
LEVELS["C15"] = ("proof", PY.format("Variable.is_simple, Struct.is_simple and Protocol.get_size_of of protocol.py"),
                 "For every acyclic protocol (C13), by induction on the rank of the struct. " + PYN)
LEVELS["C16"] = ("exploration", "bounded: token comparison of the emitted text under option combinations, and compiled code under options against the reference codec",
                 "Bounded: a relation between two runs of a 600-line text emitter is not expressed as a contract here.")
LEVELS["C17"] = ("proof", PY.format("main of cli.py") + "; the contract is over the trace of effects (exit status, what goes to which stream, files opened)",
                 "For every combination of options, every outcome of loading the protocol and of the writer. " + PYN + "the writer's generate() returns a string or raises; its text is what is written.")

NOT_APPLICABLE = {"C20": "Acceptance by eight third-party compilers is not a postcondition of code in /repo: it would need the compilers' own front ends specified. The kernels are compiled for six targets on every run of the other checks, which is testing, not proof."}

TRUSTED = ["bvc: front ends (syntax to intermediate form), semantics of the language subset, contracts of the standard library functions used (bvc/lang_*.py)",
           "z3", "the reference layout bvc/codec.py and spec/", "20 kernel protocols and the drawn ones stand for the protocols a user may write: one obligation set per protocol, for all values of it"]
PYTRUSTED = ["pyvc: semantics of the Python subset, string and container axioms, contracts of the standard library functions used (pyvc/core.py, pyvc/interp.py)",
             "z3", "the contracts in pyvc/protocol.py and pyvc/cli.py"]
ASSUME = {"go": ["bytes of a bool are 0 or 1", "integers of the target's width are bit-exact; offsets fit int"], "typescript": ["buffers shorter than 4 GiB", "TextEncoder/TextDecoder: strict UTF-8 of well-formed strings"],
          "assemblyscript": ["wasm32: usize is 32 bits, an ArrayBuffer at most 1 GiB - 1, an array at most 2^28 elements", "the max argument of ProcessRawBytes is integral",
                             "String.UTF8.encode and decode are inverse on valid UTF-8", "no compiler here: counterexamples are replayed by harness/asrun.js, an interpreter of the emitted text; text the compiler would refuse is not noticed"],
          "csharp": ["streams shorter than 2 GiB, seekable, with Length fixed while reading", "BinaryReader, BinaryWriter, Encoding.UTF8, Enum.IsDefined as documented; ReadBytes gives fewer bytes at the end only", "lists grow without limit", "members and list elements are not null"],
          "rust": ["debug build: arithmetic overflow and out-of-range access panic (a release build differs only where a proof fails)", "a slice is at most isize::MAX bytes; allocation succeeds", "core, alloc and std functions as documented: the list is RS.std in bvc/lang_rs.py", "enum members hold a declared number (the type system; no unsafe code in the emitted text)"],
          "c": ["x86-64 little endian, int 32 bit, size_t 64 bit, no padding surprises in memcpy of scalars", "malloc returns distinct fresh memory, non-NULL for size 0 (glibc), allocations up to 2^47"]}
PYASSUME = {"C12": ["the document is a table whose meta is a table and whose structs, messages, enums are arrays of tables (other shapes: bounded)", "tomllib returns the table of the text or raises TOMLDecodeError", "f-strings and repr do not raise"],
            "C13": ["the name tables hold finitely many structs"], "C14": ["values come from TOML: str, int, float, bool, list, table"],
            "C15": ["acyclicity as a rank on structs (established by C13)"], "C17": ["argparse: each option is absent, a string, or a flag; it exits 2 on a usage error", "generate() returns a string or raises", "writer names are lower case"]}
