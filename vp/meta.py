"""How each property is decided: technique, level, what the level means."""
ABS = "abstract interpretation of MIR (bit-level dataflow)"
TV = "translation_validation"
_n = "Per declaration of the corpus the result covers all inputs. Assumes the driver's MIR semantics; declarations outside the corpus are covered only through the shared derive code."
CHECKS = {
    "C01": (ABS, TV, _n),
    "C02": (ABS, TV, _n),
    "C03": (ABS, TV, _n), "C04": (ABS, TV, _n), "C05": (ABS, TV, _n), "C06": (ABS, TV, _n), "C15": (ABS, TV, _n), "C16": (ABS, TV, _n), "C07": (ABS, TV, _n), "C08": (ABS, TV, _n), "C13": (ABS, TV, _n), "C18": (ABS, TV, _n), "C19": (ABS, TV, _n), "C20": (ABS, TV, _n), "C09": (ABS, TV, _n), "C10": (ABS, TV, _n), "C11": (ABS, TV, _n),
    "C12": (ABS + "; compile-time witnesses for the discriminants", TV, _n),
    "C21": (ABS + ", oracle over rendered text with symbolic digits", TV, _n + " Text pieces that depend on field values are compared as digit provenance."),
    "C22": ("comparison of the doc attributes in the compiled HIR with the declared layout", TV, "Per declaration of the corpus."),
    "C23": ("effect analysis over MIR, fields, statics and impls of every library and derived function; effects met by abstract interpretation of the entry points through the standard library", "other", "Rule-based; the standard library and bitvec are covered as far as the analysed entries reach into them."),
    "C24": (ABS + " with member types whose failures are chosen by their input", TV, "Covers the compositions listed in DESIGN.md, per composition all inputs."),
    "C27": (ABS, TV, _n), "C14": (ABS + ": panic freedom", TV, _n),
    "C17": ("compile-fail witnesses paired with compiling twins", "other", "Decides the generated list of declarations (per rule: kinds of fields x positions x sizes), with the derive built with and without overflow checks; not every ill-formed declaration."),
    "C26": (ABS + "; trait-bound compile witnesses", TV, "Per integer type the result covers all values and, for deserializing, every visitor call a deserializer can make with a number; other self-describing deserializers are covered through the derived serde code of the pinned version."),
    "C25": ("type checking and resolved-path rules in every feature set; " + ABS, "other", "All 13 listed feature sets (all 32 combinations when thorough) on the host target with nightly; a real bare-metal target is not installed, so absence of std/alloc is decided from the linked crates and resolved paths."),
    "C28": (ABS + ", oracle over rendered text with symbolic digits", "proof", "All 128 pairs and their wrappers, all values; assumes the driver's MIR semantics. Text: {} and {:?} only (width, sign and base options are not promised)."),
    "C29": (ABS + ", oracle over rendered text with symbolic digits", "proof", "All variants and all numbers; assumes the driver's MIR semantics."),
    "C30": (ABS, TV, "15 array sizes up to 64, all contents, selected distances; assumes the driver's MIR semantics."),
}
NOT_APPLICABLE = {}
