"""What each check analyses."""
import witness

TRUSTED = [
    "rustc nightly front end and its MIR construction",
    "/verif/engine: the abstract interpreter, its automata and its models of core/alloc primitives",
    "/verif/engine/src/spec.rs: RFC 5646 grammar transcribed as regular expressions",
    "/verif/harness: the statement of each obligation",
]
COMPONENTS = [
    "normal_lang_tag", "private_use", "private_use_subtag", "language", "primary_language",
    "language_extension", "extended_lang_tag", "script", "region", "variant", "variants",
    "extension", "extensions", "extension_subtag",
]
RULE = (
    "abstract interpretation of the crate's MIR from each entry point, over all inputs at once: every check "
    "reached must hold on the whole set of inputs that can reach it, and no panic, unreachable or "
    "out-of-bounds construct may be reachable"
)
P = PROPS = {}


def engine(pid, quick, thorough=None, kinds=None, level="proof", rule=RULE, **kw):
    PROPS[pid] = dict(quick=quick, level=level, rule=rule, **kw)
    if thorough:
        PROPS[pid]["thorough"] = thorough
    if kinds:
        PROPS[pid]["kinds"] = kinds


engine("C01", ["c01"])
engine("C02", ["c02"])
engine("C03", ["c01", "c02", "c03", "c09", "c16", "c17"], kinds=["invalid", "out-of-bounds", "check@c03"])
engine("C04", ["c01", "c02", "c03", "c09", "c14", "c16", "c17"], ["c01", "c02", "c03", "c09", "c13", "c14", "c15", "c16", "c17"], kinds=["panic", "unreachable", "out-of-bounds"])
for i in range(5, 13):
    engine("C%02d" % i, ["c%02d" % i])
NOINV = ["check", "panic", "unreachable", "out-of-bounds", "differ"]
engine("C13", ["c13"], kinds=NOINV)
engine("C14", ["c14"])
engine("C15", ["c15"], kinds=NOINV)
engine("C16", ["c16"], kinds=NOINV)
engine("C17", ["c17"])
engine("C20", ["c20"])
engine(
    "C21",
    ["c21"],
    kinds=["check", "invalid", "panic@c21::ok", "unreachable@c21::ok", "out-of-bounds@c21::ok"],
    features=["c21"],
    soft=True,
    extra=[witness.c21],
    technique="static analysis: abstract interpretation of the macro's expansion over an arbitrary literal, and compile-pass/compile-fail constants",
)
engine(
    "C18",
    ["c18"],
    kinds=["check", "invalid"],
    features=["c18"],
    prepare=witness.c18_prepare,
    technique="static analysis: rules on the public interface the compiler sees, and abstract interpretation of every safe function that yields or changes a value",
)
engine(
    "C22",
    ["c22"],
    kinds=["check"],
    rule="the language each recogniser accepts, computed from its MIR, and the language of the rule it is named after, computed from the ABNF file, are the same set of texts",
    technique="static analysis: automaton of each compiled recogniser extracted from its MIR, compared with the automaton of its ABNF rule",
    note="Exact comparison of regular languages over all valid UTF-8 texts. Trusts rustc's MIR, the analyser and its reading of ABNF (unverified code in /verif/engine).",
)
PROPS["C19"] = dict(
    level="proof",
    rule=witness.C19_RULE,
    extra=[witness.c19],
    technique="static analysis: comparison of the public interface the compiler sees under every feature set, and of the crates each build names",
    note="Exhaustive over the feature sets and over the public items; an interface item is compared by name and type, not by body. No target without std is installed, so the dependence on std is read from the compiled crates' extern crate items.",
)
WALKS = [
    "lang_tag_private_use_subtags", "normal_private_use_subtags", "language_extension_subtags", "extlang_iter",
    "private_use_iter", "variants_iter", "extension_iter", "extensions_iter", "each_extensions_iter_extension", "constants",
]
engine(
    "C23",
    # what c03 repeats for as long as it pleases is repeated until it ends in c23
    ["c01", "c02", "c03", "c07", "c09", "c10", "c11", "c12", "c13", "c14", "c16", "c17", "c20", "c23"] + ["!c03::" + w for w in WALKS],
    kinds=["endless"],
    rank=True,
    rule="every cycle of the abstract state graph makes some position in a text advance or retreat for good (size-change termination), and from every entry point the end is reached on every input",
    technique="static analysis: size-change termination over the abstract state graph of the MIR interpretation",
    note="Every loop and every input, without length bound. Calls into core and alloc that the analyser models rather than interprets are taken to terminate.",
)
FX_NOTE = (
    "Every path of the call graph, over-approximated (a function named is taken to be called). Calls on types the caller chooses "
    "(its hasher, formatter, serializer) are the caller's. Core functions that come without MIR are taken to have no such effect; "
    "alloc and std functions without MIR are taken to have it."
)
PROPS["C24"] = dict(
    level="proof", rule=witness.ALLOC_RULE, extra=[witness.c24], note=FX_NOTE,
    technique="static analysis: effect analysis over the call graph of the type-checked program (MIR), polymorphic",
)
PROPS["C25"] = dict(
    level="proof", rule=witness.STATE_RULE, extra=[witness.c25], note=FX_NOTE,
    technique="static analysis: effect analysis over the call graph of the type-checked program (MIR), and auto traits of every public type",
)
engine(
    "C26",
    ["c26"],
    kinds=["check"],
    extra=[witness.c26],
    rule=witness.DERIVED_RULE,
    technique="static analysis: resolution of every provided trait method, and abstract interpretation of MIR comparing it with the required one",
    note="All inputs and all lengths; nth and nth_back for the counts 0 to 3. Methods the crate does not write itself are the standard library's and trusted to follow their documentation where they are not interpreted.",
)
TECHNIQUE = "static analysis: abstract interpretation of MIR over regular languages (rustc driver)"
NOTE = (
    "Sound over-approximation of every execution on every input of the entry points: holds for all inputs, "
    "without length bound. Trusts rustc's MIR, the analyser and its models of core/alloc primitives "
    "(unverified code in /verif/engine), and the RFC 5646 grammar transcribed in engine/src/spec.rs."
)
NOT_APPLICABLE = {}
