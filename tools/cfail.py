"""Programs the compiler must reject (or, where it accepts one, that must print the exact number).

Every program is compiled by rustc against the library built from /repo's current source, once as a
debug build and once optimised with overflow checks off; every family has control programs that must
compile and print what is written next to them.
"""
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

PRELUDE = """#![allow(warnings)]
use ordinal_map::Ordinal;
use ordinal_map::map::*;
use ordinal_map::map::total::*;
use ordinal_map::set::*;
use std::convert::Infallible;
use std::cmp::Ordering;
use std::num::*;
const MAX: usize = usize::MAX;
const HALF: usize = 1 << 63;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct K<const N: usize>(usize);
impl<const N: usize> Ordinal for K<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize { self.0 }
    fn from_ordinal(o: usize) -> Option<Self> { if o < N { Some(K(o)) } else { None } }
}
"""


def size_of(ty, decl=""):
    return f"{decl}\nfn main() {{ println!(\"{{}}\", <{ty} as Ordinal>::ORDINAL_SIZE); }}\n"


def c06():
    """(name, program, kind, expected output): kind 'reject' must not compile; 'exact' must compile and print;
    'either' may do one or the other."""
    big = 1 << 64
    rej, ok = [], []
    r = lambda n, t, d="": rej.append((n, size_of(t, d), "reject", None))
    e = lambda n, t, v, d="": ok.append((n, size_of(t, d), "exact", str(v)))
    r("option of a full type", "Option<K<MAX>>")
    r("option of option", "Option<Option<K<{MAX-1}>>>")
    r("result of two halves", "Result<K<HALF>, K<HALF>>")
    r("result of full and one", "Result<K<MAX>, K<1>>")
    r("result of one and full", "Result<K<1>, K<MAX>>")
    r("either of two halves", "either::Either<K<HALF>, K<HALF>>")
    r("either of full and one", "either::Either<K<MAX>, K<1>>")
    r("array u32 x2", "[u32; 2]")
    r("array u8 x8", "[u8; 8]")
    r("array u16 x4", "[u16; 4]")
    r("array i8 x9", "[i8; 9]")
    r("array of pairs", "[(u8, u8); 4]")
    r("array K2 x64", "[K<2>; 64]")
    r("array K2 x65", "[K<2>; 65]")
    r("array K3 x41", "[K<3>; 41]")
    r("array K3 x50", "[K<3>; 50]")
    r("array full x2", "[K<MAX>; 2]")
    r("array of halves x3", "[K<HALF>; 3]")
    r("pair u32", "(u32, u32)")
    r("pair full and bool", "(K<MAX>, bool)")
    r("pair bool and full", "(bool, K<MAX>)")
    r("pair of 2^32+1", "(K<0x100000001>, K<0xffffffff00000001>)")
    r("pair wrapping to zero", "(K<HALF>, K<2>)")
    r("triple", "(u32, u16, u16)")
    r("8 bytes", "(u8, u8, u8, u8, u8, u8, u8, u8)")
    r("16 nibbles", "(" + "K<16>, " * 16 + ")")
    r("16, last overflows", "(" + "K<2>, " * 15 + "K<0x2000000000000>)")
    r("16, first overflows", "(K<0x2000000000000>, " + "K<2>, " * 15 + ")")
    r("array K2 x2^32", "[K<2>; 0x100000000]")
    r("array bool x2^32+1", "[bool; 0x100000001]")
    r("array K3 x2^32+2", "[K<3>; 0x100000002]")
    r("array K2 x2^63", "[K<2>; HALF]")
    r("array K2 x2^16+1", "[K<2>; 0x10001]")
    r("array K2 x2^8", "[K<2>; 256]")
    r("array K2 x2^8+1", "[K<2>; 257]")
    r("array 2^32 x3", "[K<0x100000000>; 3]")
    r("array 2^32 x4", "[K<0x100000000>; 4]")
    r("array 2^32+1 x2", "[K<0x100000001>; 2]")
    r("array of arrays", "[[K<2>; 32]; 2]")
    r("array of options", "[Option<K<0xffffffff>>; 2]")
    r("nested array", "[[u16; 2]; 2]")
    r("boxed pair", "Box<(u32, u32)>")
    r("option of wrapped pair", "Option<(u32, u32)>")
    r("nonzero pair", "(NonZeroU32, NonZeroU64)")
    r("option nonzero u64", "Option<NonZeroU64>")
    r("option nonzero i64", "Option<NonZeroI64>")
    d = "#[derive(Ordinal)]"
    r("struct pair", "S", f"{d} struct S(u32, u32);")
    r("struct record", "S", f"{d} struct S {{ a: u16, b: u16, c: u16, d: u16 }}")
    r("generic struct", "S<K<MAX>>", f"{d} struct S<T: Ordinal>(T, bool);")
    r("enum two halves", "E", f"{d} enum E {{ A(K<HALF>), B(K<HALF>) }}")
    r("enum full and unit", "E", f"{d} enum E {{ A(K<MAX>), B }}")
    r("enum unit and full", "E", f"{d} enum E {{ B, A(K<MAX>) }}")
    r("enum units and almost full", "E", f"{d} enum E {{ A, B, C(K<{{MAX-1}}>) }}")
    r("enum units around", "E", f"{d} enum E {{ A, C(K<{{MAX-1}}>), B }}")
    r("enum product overflow in variant", "E", f"{d} enum E {{ A, B(u32, u32) }}")
    r("enum product overflow in record variant", "E", f"{d} enum E {{ A {{ x: u32, y: u32 }}, B }}")
    r("generic enum", "E<K<MAX>, bool>", f"{d} enum E<A: Ordinal, B: Ordinal> {{ A(A), B(B) }}")
    r("enum of three thirds", "E", f"{d} enum E {{ A(K<0x5555555555555556>), B(K<0x5555555555555555>), C(K<0x5555555555555555>) }}")
    r("nested derive", "S", f"{d} enum E {{ A(K<HALF>), B }} {d} struct S(E, bool);")
    e("option of almost full", "Option<K<{MAX-1}>>", big - 1)
    e("option u32", "Option<u32>", (1 << 32) + 1)
    e("result exact", "Result<K<HALF>, K<{HALF-1}>>", big - 1)
    e("either exact", "either::Either<K<{HALF-1}>, K<HALF>>", big - 1)
    e("array K2 x63", "[K<2>; 63]", 1 << 63)
    e("array u8 x7", "[u8; 7]", 1 << 56)
    e("array K3 x40", "[K<3>; 40]", 3 ** 40)
    e("array full x1", "[K<MAX>; 1]", big - 1)
    e("array full x0", "[K<MAX>; 0]", 1)
    e("array empty x0", "[Infallible; 0]", 1)
    e("array empty x5", "[Infallible; 5]", 0)
    e("array one x1000", "[K<1>; 1000]", 1)
    e("pair exact", "(u32, K<0xffffffff>)", (1 << 32) * 0xffffffff)
    e("pair full and one", "(K<MAX>, K<1>)", big - 1)
    e("pair full and empty", "(K<MAX>, Infallible)", 0)
    e("factors of 2^64-1", "(K<0x100000001>, K<0xffffffff>)", big - 1)
    e("16 components", "(" + "K<15>, " * 16 + ")", 15 ** 16)
    e("16 mixed", "(K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>, K<12>, K<13>, K<14>, K<15>, K<16>)", 20922789888000)
    e("unit", "()", 1)
    e("box", "Box<K<MAX>>", big - 1)
    e("nonzero", "NonZeroU64", big - 1)
    e("nonzero signed", "NonZeroI64", big - 1)
    e("char", "char", 0x110000 - 0x800)
    e("option char", "Option<Option<char>>", 0x110000 - 0x800 + 2)
    e("struct exact", "S", (1 << 32) * 0xffffffff, f"{d} struct S(u32, K<0xffffffff>);")
    e("enum exact", "E", big - 1, f"{d} enum E {{ A(K<HALF>), B, C(K<{{HALF-2}}>) }}")
    e("enum unit and almost full", "E", big - 1, f"{d} enum E {{ A, B(K<{{MAX-1}}>) }}")
    e("empty enum", "E", 0, f"{d} enum E {{}}")
    e("enum with empty variants", "E", 3, f"{d} enum E {{ A(Infallible), B, C(bool), D(Infallible, u8) }}")
    e("generic enum exact", "E<K<7>, bool>", 7 * 2 + 7 + 2 + 1, f"{d} enum E<A: Ordinal, B: Ordinal> {{ P {{ a: A, b: B }}, A(A), B(B), U }}")
    ei = [("empty times overflow", size_of("([K<MAX>; 2], Infallible)"), "either", "0"),
          ("overflow before empty", size_of("(K<MAX>, K<2>, Infallible)"), "either", "0"),
          ("empty array of overflow", size_of("[[K<MAX>; 2]; 0]"), "either", "1"),
          ("struct with empty last", size_of("S", f"{d} struct S(K<MAX>, K<2>, Infallible);"), "either", "0")]
    return rej + ok + ei


def c16():
    out = []
    uses = {
        "new": "let s = OrdinalSet64::<T>::new(); println!(\"{}\", s.iter().count());",
        "default": "let s = OrdinalSet64::<T>::default(); println!(\"{}\", s.iter().count());",
        "all": "let s = OrdinalSet64::<T>::all(); println!(\"{}\", s.iter().count());",
        "collect": "let s: OrdinalSet64<T> = Vec::<T>::new().into_iter().collect(); println!(\"{}\", s.contains(&mk()));",
        "insert": "let mut s = OrdinalSet64::<T>::new(); println!(\"{}\", s.insert(mk()));",
        "new only": "let s = OrdinalSet64::<T>::new(); println!(\"ok\");",
        "collect only": "let s: OrdinalSet64<T> = Vec::<T>::new().into_iter().collect(); println!(\"ok\");",
        "all only": "let s = OrdinalSet64::<T>::all(); println!(\"ok\");",
        "default only": "let s = OrdinalSet64::<T>::default(); println!(\"ok\");",
    }
    exp = {"new": "0", "default": "0", "all": "{n}", "collect": "false", "insert": "true", "new only": "ok", "collect only": "ok",
           "all only": "ok", "default only": "ok"}
    for t, n, kind in (("K<65>", 65, "reject"), ("u8", 256, "reject"), ("K<128>", 128, "reject"), ("Option<K<64>>", 65, "reject"),
                       ("(K<33>, bool)", 66, "reject"), ("K<MAX>", 0, "reject"), ("K<0x100000000>", 0, "reject"), ("K<64>", 64, "exact"), ("Option<K<63>>", 64, "exact"),
                       ("bool", 2, "exact"), ("K<1>", 1, "exact")):
        for u, body in uses.items():
            out.append((f"{u}, {t}", f"type T = {t};\nfn mk() -> T {{ <T as Ordinal>::from_ordinal(0).unwrap() }}\nfn main() {{ {body} }}\n", kind,
                        exp[u].format(n=n) if kind == "exact" else None))
    return out


def c20():
    out = []
    tot = {
        "try_new": "let m = OrdinalTotalArrayMap::<T, u8, S>::try_new(|_| Ok::<u8, ()>(1)).unwrap(); println!(\"ok\");",
        "new": "let m = OrdinalTotalArrayMap::<T, u8, S>::new(|_| 1); println!(\"ok\");",
        "from_array": "let m = OrdinalTotalArrayMap::<T, u8, S>::from_array([1; S]); println!(\"ok\");",
        "default": "let m = OrdinalTotalArrayMap::<T, u8, S>::default(); println!(\"ok\");",
        "sparse new": "let m = OrdinalArrayMap::<T, u8, S>::new(); println!(\"ok\");",
        "sparse default": "let m = OrdinalArrayMap::<T, u8, S>::default(); println!(\"ok\");",
        "sparse collect": "let m: OrdinalArrayMap<T, u8, S> = Vec::<(T, u8)>::new().into_iter().collect(); println!(\"ok\");",
    }
    st = {
        "set new": "let m = OrdinalArraySet::<T, S>::new(); println!(\"ok\");",
        "set collect": "let m: OrdinalArraySet<T, S> = Vec::<T>::new().into_iter().collect(); println!(\"ok\");",
        "set default, insert": "let mut m = OrdinalArraySet::<T, S>::default(); m.insert(mk()); println!(\"ok\");",
        "set default, contains": "let m = OrdinalArraySet::<T, S>::default(); m.contains(&mk()); println!(\"ok\");",
        "set default, format": "let m = OrdinalArraySet::<T, S>::default(); let _ = format!(\"{m:?}\"); println!(\"ok\");",
    }
    for t, n in (("bool", 2), ("Option<bool>", 3), ("K<64>", 64), ("K<65>", 65), ("u8", 256)):
        for s in sorted({n, n - 1, n + 1, 0, 1, n * 2}):
            for u, body in tot.items():
                out.append((f"{u}, {t}, {s}", (t, s, body), "exact" if s == n else "reject", "ok" if s == n else None))
        w = -(-n // 64)
        for s in sorted({w, w - 1, w + 1, n, 0}):
            for u, body in st.items():
                out.append((f"{u}, {t}, {s} words", (t, s, body), "exact" if s == w else "reject", "ok" if s == w else None))
    return [(nm, f"type T = {t};\nconst S: usize = {s};\nfn mk() -> T {{ <T as Ordinal>::from_ordinal(0).unwrap() }}\nfn main() {{ {b} }}\n", k, e)
            for nm, (t, s, b), k, e in out]


FAMILIES = {"C06": c06, "C16": c16, "C20": c20}


def build_lib(chk, sh, env_for):
    """The library and what it depends on, compiled from /repo's current source."""
    rc, o, e = sh(["cargo", "build", "--offline", "--message-format=json", "--manifest-path",
                   str(Path(__file__).resolve().parent.parent / "replay/Cargo.toml"), "--lib"], 600)
    if rc != 0:
        raise RuntimeError("library build for the compile-fail programs failed: " + e[-1500:])
    ext, dirs = {}, set()
    for l in o.splitlines():
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if d.get("reason") == "compiler-artifact":
            for f in d["filenames"]:
                if f.endswith(".rlib"):
                    ext[d["target"]["name"].replace("-", "_")] = f
                    dirs.add(os.path.dirname(f))
    return ext, dirs


def run(chk):
    from check import sh, env_for
    fam = FAMILIES[chk.cfg["cfail"]]()
    ext, dirs = build_lib(chk, sh, env_for)
    d = chk.build / "cfail"
    d.mkdir(exist_ok=True)
    base = ["rustc", "--edition", "2021", "--crate-type", "bin"]
    for n in ("ordinal_map", "either"):
        base += ["--extern", f"{n}={ext[n]}"]
    for p in dirs:
        base += ["-L", f"dependency={p}"]
    profiles = [("debug", ["-C", "debuginfo=0", "-C", "overflow-checks=on"]),
                ("release", ["-C", "opt-level=1", "-C", "overflow-checks=off", "-C", "debug-assertions=off"])]
    if chk.cfg["cfail"] != "C06" and not chk.thorough:
        # the rejection is a constant assertion; the profile matters for arithmetic (C06) only
        profiles = profiles[:1]
    stats = {"reject": 0, "exact": 0, "either": 0}
    bad, odd = [], []

    def one(job):
        i, (name, src, kind, want), (pname, flags) = job
        f = d / f"p{i}_{pname}.rs"
        b = d / f"p{i}_{pname}"
        f.write_text(PRELUDE + src)
        rc, o, e = sh([*base, *flags, "-o", str(b), str(f)], 120)
        text = f"{name} ({pname} build)\n{PRELUDE}{src}"
        if rc != 0:
            if kind == "exact":
                return ("bad", text + "\ndoes not compile, expected output " + want + "\n" + e[:1500])
            if "E0080" in e or "overflow" in e or "panicked" in e or "too big" in e:
                return (kind, None)
            return ("odd", text + "\n" + e[:800])
        rc2, o2, e2 = sh([str(b)], 30, limit_gb=8)
        try:
            b.unlink()
        except OSError:
            pass
        if kind == "reject":
            return ("bad", text + f"\ncompiles (it must be rejected) and prints {o2.strip()!r} {e2.strip()[:200]}")
        if rc2 != 0 or o2.strip() != want:
            return ("bad", text + f"\nprints {o2.strip()!r}, exact value {want!r} (status {rc2}) {e2.strip()[:300]}")
        return (kind, None)

    jobs = [(i, p, pr) for i, p in enumerate(fam) for pr in profiles]
    with ThreadPoolExecutor(8) as ex:
        for r, t in ex.map(one, jobs):
            if r == "bad":
                bad.append(t)
            elif r == "odd":
                odd.append(t)
            else:
                stats[r] += 1
    chk.cov["compile_time_rejection"] = {"programs": len(jobs), "rejected_as_required": stats["reject"], "compiled_and_exact": stats["exact"],
                                         "either": stats["either"], "rejected_for_another_reason": len(odd), "bounded": "these programs only"}
    chk.note(f"compile-time programs: {len(jobs)} run, {len(bad)} bad, {len(odd)} odd")
    if odd:
        chk.undecided.append("program rejected for an unexpected reason: " + odd[0][-600:])
    if bad:
        chk.violations.append(("program: " + "\n\nprogram: ".join(bad[:3]), False))


if __name__ == "__main__":
    sys.exit("run through check.py")
