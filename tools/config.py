"""What decides each property, and with which tools."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent

TRUSTED_COMMON = [
    "Verus 0.2026.09.13 and its bundled Z3; rustc; for scalars Kani 0.68.0 / CBMC 6.11.0",
    "vstd's specifications of std (Option, Vec, slices, arrays, integers)",
    "overlay/model.rs: assumed contracts of std iterators (slice/vec/array/range, Map, Zip), Box<[T]>, Vec growth, "
    "Option::{take,replace,insert,get_or_insert}, u64 bit counting, AtomicUsize, RangeInclusive; each marked external_body or "
    "assume_specification in that file and counted in verus_assumption_scan",
    "engine/ (the extraction): rewrites listed in DESIGN.md, applied mechanically to /repo's source on every run",
    "user implementations of Ordinal obey the trait's contract (overlay/ordinal.ov), Clone returns an equal value",
    "termination of loops is proved where Verus demands a measure; allocation never fails",
]

# fns where `assert(false)` may legitimately be provable (no value of the type exists)
VACUOUS_OK = set()
COVER_OK = set()

SCALAR_ASSUME = ["64-bit target, as in this sandbox (the 32-bit integer implementations do not compile elsewhere)"]


VERUS_T = ("contract-based deductive verification: Verus on the library's source with contracts woven in mechanically on every run; "
           "failing obligations replayed by running the real crate against the contracts' model")
KANI_T = ("contract-based deductive verification: Kani/CBMC, loop-free full-domain harnesses on the compiled code of /repo, "
          "counterexamples replayed on the real code")
VERUS_N = ("Every obligation of the functions under contract discharged for all inputs, histories and key types. Assumes the std contracts of "
           "overlay/model.rs, user trait implementations obeying the trait laws, and the mechanical extraction. Where a changed function leaves "
           "the verifier's reach, the bounded run on the real crate decides and the evidence says so.")


def P(bin, level="proof", technique=None, note=None, **kw):
    return dict(bin=bin, level=level, technique=technique or (KANI_T if kw.get("kani") and not kw.get("verus") else VERUS_T),
                note=note or VERUS_N, **kw)


KANI_N = ("Complete proof over every value / every machine word of every scalar type on the compiled code (64-bit target, checked arithmetic); "
          "trusts Kani and CBMC.")


KEYS = ["key types obey the trait laws proved for the library's own implementations (C01-C05) or assumed of user code"]

PROPS = {
    "C01": P("c01", kani=dict(harness=["c01_"], min=39, replay=True), note=KANI_N, assumptions=SCALAR_ASSUME),
    "C02": P("c02", kani=dict(harness=["c02_"], min=19, replay=True), note=KANI_N, assumptions=SCALAR_ASSUME),
    "C03": P("c03", verus=True),
    "C04": P("c04", verus=True, tuples=True),
    "C05": P("c05", verus=True, shapes=True, extra=["derivegen"],
             technique="contract-based deductive verification: Verus on the derive macro's code generator, for every declaration, and on the compiler's expansion of the "
                       "macro for a family of declarations; bounded run of concrete declarations besides",
             note="Every function of the generator that derives is under contract: for every struct and enum declaration, whatever the number of fields and variants, the code it makes "
                  "numbers values in declaration order, is inverse both ways, and gives None above. Assumed: what each of 33 exact quoted templates means (a template not "
                  "in the table is undecided), syn's parse tree, the language's rules about declarations, mathematical integers (the count is a checked constant which bounds every intermediate "
                  "value). That meaning is checked on the compiler's own expansion of a bounded family (all structs of up to 8 fields, all enums of up to 3 variants of up to 2 fields, "
                  "larger fixed and random ones), each verified for all field types, with machine arithmetic; and by running concrete declarations.",
             trusted=["overlay_derive/model.rs: meaning of the quoted templates, contracts of syn and of the iterators the generator uses, hygiene of identifiers",
                      "SizeExpr::expr's recursive call through a closure satisfies the contract being proved (termination not proved)",
                      "a panic of the macro (count above u64::MAX) is a compile error",
                      "impl_ordinal_for_tuple_n is not under contract: its whole output (arities 0..16) is verified itself, in C04"]),
    "C06": P("c06", verus=True, cfail="C06"),
    "C07": P("c07", verus=True, assumptions=KEYS),
    "C08": P("c08", verus=True, assumptions=KEYS),
    "C09": P("c09", verus=True, assumptions=KEYS),
    "C10": P("c10", verus=True, assumptions=KEYS),
    "C11": P("c11", verus=True, assumptions=KEYS),
    "C12": P("c12", verus=True, assumptions=KEYS),
    "C13": P("c13", verus=True, assumptions=KEYS),
    "C14": P("c14", verus=True, assumptions=KEYS),
    "C15": P("c15", verus=True, assumptions=KEYS),
    "C16": P("c16", verus=True, cfail="C16", assumptions=KEYS),
    "C17": P("c17", verus=True, assumptions=KEYS),
    "C18": P("c18", verus=True, miri=dict(), assumptions=KEYS + ["the language: code without unsafe, forget, leak or reference counting owns every value exactly once, also when unwinding; "
        "a destructor that itself panics is not considered"],
        note="The only code outside safe Rust's ownership (array_builder.rs; the check scans for others) is proved against ownership contracts of its slots: each slot "
             "below `filled` owns a value and no other does, values move out once, nothing is forgotten while it owns something, every exit drops the rest. The compiler's "
             "destructor calls are written out mechanically. Fault enumeration, natively and under Miri, runs the real code besides (bounded)."),
    "C19": P("c19", verus=True, miri=dict(), assumptions=KEYS),
    "C20": P("c20", verus=True, cfail="C20", assumptions=KEYS),
    "C21": P("c21", verus=True, assumptions=KEYS + ["the Debug implementations of keys and values write the same rendering whenever asked, "
        "and report an error only when the formatter does", "std's builders lay out what they are given (debug_map, debug_set, debug_list, tuples)"]),
}


def title(pid):
    for l in (ROOT / "properties.jsonl").read_text().splitlines():
        d = json.loads(l)
        if d["id"] == pid:
            return d["title"]
    return pid


def known_findings(pid):
    out = []
    f = ROOT / "known-findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            if l.startswith("finding: ") and f"property={pid} " in l:
                out.append("KNOWN-FINDING: " + l[len("finding: "):])
    return out
