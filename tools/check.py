#!/usr/bin/env python3
"""Check of one property: check.py C08 (run in /verif).

Deciding step: the deductive verifier accepts every obligation generated from /repo's current
source (Verus on the mechanically extracted crate, Kani on the compiled scalar implementations).
What it does not accept goes to the falsifier, which runs the same contracts on the real code:

  every obligation discharged, falsifier clean           exit 0
  falsifier finds a failing input                        VIOLATION property=.. replay=..
  obligation of a function of the property fails,
  falsifier finds nothing                                VIOLATION .. no-failing-input-found
  function out of the verifier's reach, anchor lost,
  resource limit                                         undecided: the bounded run decides, recorded
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time, traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
TARGET = ROOT / "target"
sys.path.insert(0, str(ROOT / "tools"))
import config  # noqa: E402

VERR = re.compile(r"not satisfied|assertion failed|^possible |could not prove termination|may fail to meet|cannot show|unable to prove")
RLIM = re.compile(r"[Rr]esource limit|rlimit|timed out|canceled", re.I)


def env_for(extra=None):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = str(TARGET)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTFLAGS", None)
    e.update(extra or {})
    return e


def sh(cmd, timeout, env=None, cwd=None, limit_gb=None):
    """(rc, stdout, stderr); rc None on timeout."""
    def pre():
        os.setsid()
        if limit_gb:
            resource.setrlimit(resource.RLIMIT_AS, (limit_gb << 30, limit_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=env or env_for(), cwd=str(cwd or ROOT), preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o or "", e or ""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.cfg = config.PROPS[pid]
        self.seed = os.environ.get("VERIF_SEED", "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.build = ROOT / "build" / pid
        self.build.mkdir(parents=True, exist_ok=True)
        (ROOT / "evidence").mkdir(exist_ok=True)
        self.violations = []   # (text, no_input)
        self.undecided = []    # text
        self.cov = {}
        self.obligations = 0
        self.discharged = 0
        self.trusted = list(config.TRUSTED_COMMON)
        self.assumptions = list(self.cfg.get("assumptions", []))
        self.cmds = []
        self.log = []
        self.lock = threading.Lock()

    def note(self, s):
        with self.lock:
            self.log.append(f"[{time.time()-self.t0:6.1f}s] {s}")

    # ------------------------------------------------------------ Verus
    def verus_run(self, text, tag, extra, timeout):
        f = self.build / f"{tag}.rs"
        cmd = ["verus", str(f), "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "8",
               *extra]
        rc, o, e = sh(cmd, timeout, cwd=self.build)
        if rc is None:
            return None
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            js = json.loads(o[o.index("{"):])
        except ValueError:
            js = {}
        return rc, js, diags

    def retry(self, errs, ranged, args, tag, timeout):
        """Other seeds for the solver: a function that verifies under one of them is proved.
        Returns the diagnostics of the functions that fail under all of them."""
        def keys(d):
            return [f["key"].split("#")[0] for f in self.owner(d, ranged)] or ["<ghost>"]
        for seed in (11, 47):
            if not errs:
                break
            r = self.verus_run("", tag, [*args, "--smt-option", f"smt.random_seed={seed}"], timeout)
            if r is None or not r[1].get("verification-results"):
                break
            again = set()
            for d in r[2]:
                if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                    again.update(keys(d))
            gone = {k for d in errs for k in keys(d)} - again
            if gone:
                self.note(f"verified under seed {seed}: {sorted(gone)}")
                self.cov.setdefault("verified_under_another_seed", []).extend(sorted(gone))
            errs = [d for d in errs if any(k in again for k in keys(d))]
        return errs

    @staticmethod
    def owner(diag, fns):
        """Function records a diagnostic belongs to (the failing body, not the failed clause)."""
        sp = diag.get("spans", [])
        body = [s for s in sp if not (s.get("label") or "").startswith("failed ")]
        for group in (body, sp):
            hit = []
            for s in group:
                best = None
                for f in fns:
                    if f["from"] <= s["line_start"] <= f["to"]:
                        if best is None or f["to"] - f["from"] < best["to"] - best["from"]:
                            best = f
                if best is not None and best not in hit:
                    hit.append(best)
            if hit:
                return hit
        return []

    def expand(self, manifest, out):
        """The compiler's own expansion of a crate's macros."""
        env = env_for({"CARGO_TARGET_DIR": str(TARGET / "expand"), "RUSTC_BOOTSTRAP": "1"})
        rc, o, e = sh(["cargo", "rustc", "-q", "--lib", "--offline", "--manifest-path", str(manifest), "--", "-Zunpretty=expanded"],
                      300, env=env)
        if rc != 0 or not o.strip():
            self.undecided.append("macro expansion failed: " + e.strip()[-300:])
            return False
        out.write_text(o)
        return True

    def expanded_tuples(self):
        import mixed
        if not self.expand(REPO / "ordinal-map/Cargo.toml", self.build / "expanded.rs"):
            return []
        (self.build / "tuple.ov").write_text(mixed.overlay())
        return ["--expanded", str(self.build / "expanded.rs"), "--ov", str(self.build / "tuple.ov")]

    def expanded_shapes(self):
        import dshapes
        sh_ = dshapes.write(self.build, REPO, int(self.seed) if self.seed.isdigit() else 0, 60 if self.thorough else 12)
        if not self.expand(self.build / "shapes/Cargo.toml", self.build / "expanded.rs"):
            return []
        self.cov["derived_declarations_proved_for_all_field_types"] = {
            "declarations": len(sh_), "structs": sum(s.kind == "struct" for s in sh_),
            "bound": "structs of up to 8 (one of 13) fields; every enum of up to 3 variants with up to 2 fields; "
                     "24 unit variants; random enums of up to 6 variants with up to 4 fields"}
        return ["--shapes", str(self.build / "expanded.rs"), "--ov", str(self.build / "shapes.ov")]

    def do_verus(self):
        eng = TARGET / "debug" / "ovx"
        rc, _, e = sh(["cargo", "build", "-q", "--offline", "--manifest-path", str(ROOT / "engine/Cargo.toml")], 400)
        if rc != 0:
            raise RuntimeError("engine build failed: " + e[-2000:])
        quarantine, drop = [], []
        reasons = {}
        more = self.expanded_tuples() if self.cfg.get("tuples") else []
        vargs, shapes = [], self.cfg.get("shapes")
        if shapes:
            more = self.expanded_shapes()
            if not more:
                return
            import dshapes
            vargs = [x for m in dshapes.MODULES for x in ("--verify-module", m)]
        for rnd in range(12):
            args = [str(eng), str(REPO / "ordinal-map/src"), str(ROOT / "overlay"), str(self.build / "v.rs"),
                    str(self.build / "v.json"), *more]
            for k in quarantine:
                args += ["--quarantine", k]
            for k in drop:
                args += ["--drop", k]
            rc, _, e = sh(args, 60)
            if rc != 0:
                self.undecided.append("extraction of the source failed: " + e.strip()[-400:])
                return
            meta = json.loads((self.build / "v.json").read_text())
            text = (self.build / "v.rs").read_text()
            fns = meta["fns"]
            if shapes:
                # the rest of the crate is only context here
                fns = [f for f in fns if f["src"].startswith("shapes.rs")]
                meta["lost"] = [l for l in meta["lost"] if l.startswith("shapes.rs")]
            ranged = [f for f in fns if f["to"] > 0 and f["status"] != "skipped"]
            r = self.verus_run(text, "v", ["--multiple-errors", "4", "--rlimit", "30" if not self.thorough else "60", *vargs], 400)
            if r is None:
                self.undecided.append("verifier timed out")
                return
            rc, js, diags = r
            errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due")]
            comp = [d for d in errs if not VERR.search(d["message"]) and not RLIM.search(d["message"])]
            if not comp:
                break
            progress = False
            for d in comp:
                own = self.owner(d, ranged)
                for f in own:
                    k = f["key"].split("#")[0]
                    reasons.setdefault(k, d["message"])
                    if k not in quarantine and f["status"] != "quarantined":
                        quarantine.append(k)
                        progress = True
                    elif k not in drop:
                        drop.append(k)
                        progress = True
            self.note(f"round {rnd}: {len(comp)} compile errors, quarantine {quarantine}, drop {drop}")
            if not progress:
                self.undecided.append("extracted text rejected by the verifier: " + comp[0]["message"][:300])
                return
        else:
            self.undecided.append("extracted text still rejected after quarantine")
            return
        res = js.get("verification-results", {})
        nver, nerr = res.get("verified", 0), res.get("errors", 0)
        errs = self.retry(errs, ranged, ["--multiple-errors", "4", "--rlimit", "60", *vargs], "v", 250)
        # -------- who fails what
        failing, limited = {}, {}
        for d in errs:
            own = self.owner(d, ranged) or [{"key": "<ghost>", "props": [], "status": "lemma", "problems": []}]
            clause = [s for s in d["spans"] if (s.get("label") or "").startswith("failed ")] or \
                     [s for s in d["spans"] if s.get("is_primary")]
            ctext = " ".join(t["text"].strip() for s in clause for t in s.get("text", []))[:300]
            for f in own:
                (limited if RLIM.search(d["message"]) else failing).setdefault(f["key"].split("#")[0], []).append(
                    (d["message"], ctext, d.get("rendered", "")))
        uncontracted = [f["key"].split("::")[-1] for f in fns if f["status"] == "nocontract"]
        lines = text.split("\n")
        # -------- dependency closure of the property, by name
        bykey, byname = {}, {}
        for f in ranged:
            bykey.setdefault(f["key"].split("#")[0], []).append(f)
            byname.setdefault(f["key"].split("#")[0].split("::")[-1], set()).add(f["key"].split("#")[0])
        tagged = [f["key"].split("#")[0] for f in fns if self.pid in f["props"]]
        tagged = list(dict.fromkeys(tagged))
        idents = {}

        def names(k, k2):
            """Whether the file of `k` can mean `k2`: the same file, or its type is named there."""
            f1, f2 = k.split("::")[0], k2.split("::")[0]
            parts = k2.split("::")[1:]
            if f1 == f2 or len(parts) < 2:
                return True
            ty = re.sub(r"[&\s]|mut ", "", parts[0].split(" for ")[-1])
            if f1 not in idents:
                p = REPO / "ordinal-map/src" / f1
                idents[f1] = set(re.findall(r"\w+", p.read_text())) if p.exists() else None
            ids = idents[f1]
            return ids is None or not re.fullmatch(r"\w+", ty) or ty in ids
        seen, todo = set(), [k for k in tagged]
        while todo:
            k = todo.pop()
            if k in seen or k not in bykey:
                continue
            seen.add(k)
            body = "\n".join("\n".join(lines[f["from"] - 1:f["to"]]) for f in bykey[k])
            for n in set(re.findall(r"\b([A-Za-z_][A-Za-z0-9_]*)\s*(?:::<[^>]*>)?\(", body)):
                for k2 in byname.get(n, ()):
                    if k2 not in seen and names(k, k2):
                        todo.append(k2)
        status = {}
        for k in seen:
            f = bykey[k][0]
            if k in failing:
                status[k] = "failed"
            elif k in limited:
                status[k] = "resource limit"
            elif f["status"] in ("trusted", "quarantined"):
                status[k] = f["status"]
            elif f["status"] == "nocontract":
                status[k] = "verified without a contract"
            else:
                status[k] = "verified"
        ndis = sum(1 for s in status.values() if s in ("verified", "verified without a contract"))
        self.obligations += len(seen)
        self.discharged += ndis
        for k in seen:
            if status[k] == "trusted":
                self.trusted.append(f"contract of {k}: assumed, body not given to the verifier")
            if status[k] == "quarantined":
                self.undecided.append(f"{k}: out of the verifier's reach ({reasons.get(k, '')[:160]})")
        for k in drop:
            self.undecided.append(f"{k}: dropped from the verified text ({reasons.get(k, '')[:160]})")
        for l in meta["lost"]:
            key, _, props = l.partition("|")
            if self.pid in props.split():
                self.undecided.append(f"{key}: the contract's function is no longer in the source")
        # -------- classify failures
        for k, v in limited.items():
            if k in seen:
                self.undecided.append(f"{k}: resource limit")
        for k, v in failing.items():
            fs = bykey.get(k, [{"problems": [], "from": 1, "to": 0, "status": "lemma"}])
            body = "\n".join("\n".join(lines[f["from"] - 1:f["to"]]) for f in fs)
            problems = [p for f in fs for p in f["problems"]]
            helpers = [u for u in uncontracted if re.search(r"\b" + re.escape(u) + r"\s*(::<[^>]*>)?\(", body)]
            what = f"{k}: {v[0][0]}: {v[0][1]}"
            if k not in tagged:
                if k in seen:
                    self.undecided.append(f"obligation of a function it depends on fails: {what}")
            elif problems or helpers:
                self.undecided.append(f"{what} (contract does not fit the source any more: {(problems + ['calls ' + h + ', which has no contract' for h in helpers])[0]})")
            else:
                src = fs[0]
                self.violations.append((f"failed obligation in {k} (source: {src.get('src','')}:{src.get('src_line','')})\n"
                                        + "\n".join(x[2] for x in v), True))
        if "<ghost>" in failing:
            self.undecided.append("a lemma fails: " + failing["<ghost>"][0][0])
        if self.pid == "C18":
            # safe Rust owns every value exactly once; what is left are these places
            esc = meta.get("escapes", [])
            self.cov["ownership_escapes"] = {"where": esc, "under_contract_in": "array_builder.rs"}
            for e in esc:
                if not e.startswith("array_builder.rs:"):
                    self.undecided.append(f"code outside the language's ownership discipline and outside the contracts: {e}")
            if [f["key"] for f in ranged if f["src"] == "array_builder.rs" and f["status"] == "nocontract"]:
                self.undecided.append("array_builder.rs has functions without a contract")
        if self.pid == "C21":
            for d in meta["dropped"]:
                if re.search(r"(impl|derive) Debug for ", d) and "ArrayNotFilled" not in d:
                    self.undecided.append(f"rendering without a contract: {d}")
        mods = js.get("times-ms", {}).get("smt", {})
        scan = {w: len(re.findall(r"\b" + w + r"\b", text)) for w in ("assume", "admit", "external_body", "assume_specification")}
        self.cov.update({
            "verus_functions_under_contract": sorted(tagged),
            "verus_depends_on": sorted(seen - set(tagged)),
            "verus_not_verified": {k: s for k, s in status.items() if not s.startswith("verified")},
            "verus_whole_crate": {"verified": nver, "errors": nerr,
                                  "smt_queries_rlimit": mods.get("rlimit-run"), "smt_ms": mods.get("smt-run"),
                                  "total_ms": js.get("times-ms", {}).get("total")},
            "verus_assumption_scan": scan,
            "dropped_from_extraction": meta["dropped"],
        })
        self.cmds.append("ovx /repo/ordinal-map/src overlay build/v.rs build/v.json && verus build/v.rs (back end: Z3, as bundled with Verus)")
        if nver + nerr < (400 if shapes else 300):
            self.undecided.append(f"only {nver} functions reached the verifier")
        if tagged and not seen:
            self.undecided.append("no function of the property reached the verifier")
        # -------- vacuity: `assert(false)` in every body must fail
        args = [str(eng), str(REPO / "ordinal-map/src"), str(ROOT / "overlay"), str(self.build / "w.rs"),
                str(self.build / "w.json"), "--canary", *more]
        for k in quarantine:
            args += ["--quarantine", k]
        for k in drop:
            args += ["--drop", k]
        rc, _, e = sh(args, 60)
        r = self.verus_run("", "w", ["--multiple-errors", "1", "--rlimit", "20", *vargs], 300) if rc == 0 else None
        if r is None:
            self.undecided.append("vacuity run did not finish")
            return
        wfns = json.loads((self.build / "w.json").read_text())["fns"]
        wr = [f for f in wfns if f["to"] > 0 and f["status"] == "contract" and f.get("canary")]
        dead = set()
        for d in r[2]:
            if d.get("level") == "error":
                for s in d.get("spans", []):
                    for f in wr:
                        if f["from"] <= s["line_start"] <= f["to"]:
                            dead.add(f["key"])
        vac = [f["key"] for f in wr if f["key"] not in dead and f["key"] in seen]
        self.cov["vacuity"] = {"bodies_where_assert_false_must_fail": sum(1 for f in wr if f["key"] in seen),
                               "not_failing": [v for v in vac if v not in config.VACUOUS_OK]}
        for v in vac:
            if v not in config.VACUOUS_OK:
                self.undecided.append(f"{v}: contradictory precondition, its proof says nothing")
                self.discharged -= 1

    # ------------------------------------------------------------ Kani
    def do_kani(self):
        k = self.cfg["kani"]
        out = self.build / "kani.txt"
        cmd = ["cargo", "kani", "--output-format", "terse", "-j", "6", "-Z", "unstable-options", "--harness-timeout", "200s", "--default-unwind", "70"]
        for h in k["harness"]:
            cmd += ["--harness", h]
        env = env_for({"CARGO_TARGET_DIR": str(TARGET / "kani")})
        rc, o, e = sh(cmd, 700, env=env, cwd=ROOT / "kani", limit_gb=None)
        out.write_text(o + "\n" + e)
        if rc is None:
            self.undecided.append("Kani timed out")
            return
        if "Manual Harness Summary" not in o and "Complete -" not in o:
            self.undecided.append("Kani did not run: " + (e or o)[-300:])
            return
        per, cur = {}, {}
        checks = 0
        for l in o.splitlines():
            m = re.match(r"(?:Thread (\d+): )?(.*)$", l)
            th, rest = m.group(1), m.group(2)
            mm = re.match(r"Checking harness (\S+?)\.\.\.", rest)
            if mm:
                cur[th] = mm.group(1)
                continue
            if th is not None:
                cur["last"] = cur.get(th)
            mm = re.search(r"\*\* (\d+) of (\d+) failed", rest)
            h = cur.get("last") or cur.get(None)
            if mm and h:
                per.setdefault(h, {})["checks"] = int(mm.group(2))
                checks += int(mm.group(2))
            mm = re.search(r"(\d+) of (\d+) cover properties satisfied", rest)
            if mm and h:
                per.setdefault(h, {})["cover"] = (int(mm.group(1)), int(mm.group(2)))
            mm = re.match(r"VERIFICATION:- (\w+)", rest)
            if mm and h:
                per.setdefault(h, {})["result"] = mm.group(1)
            if "Failed Checks:" in rest and h:
                per.setdefault(h, {}).setdefault("failed", []).append(rest.strip())
        ok = [h for h, d in per.items() if d.get("result") == "SUCCESSFUL"]
        n = len(per)
        self.obligations += checks
        bad = [h for h in per if h not in ok]
        self.discharged += sum(per[h].get("checks", 0) for h in ok)
        self.cov["kani"] = {"harnesses": n, "successful": len(ok), "checks": checks,
                            "covers_unsatisfied": [h for h, d in per.items() if d.get("cover") and d["cover"][0] != d["cover"][1]],
                            "bounded": k.get("bounded", "no bound: loop-free harnesses over full-domain symbolic inputs")}
        self.cmds.append("cargo kani " + " ".join("--harness " + h for h in k["harness"]) + " (back end: CBMC with its default SAT solver)")
        if n < k["min"]:
            self.undecided.append(f"only {n} Kani harnesses ran, {k['min']} expected")
        for h in self.cov["kani"]["covers_unsatisfied"]:
            if per[h].get("result") == "SUCCESSFUL" and h not in config.COVER_OK:
                self.undecided.append(f"Kani harness {h}: unreachable cover")
        for h in bad[:4]:
            fl = per[h].get("failed", [])
            real = [x for x in fl if "unwinding assertion" not in x and "is not currently supported" not in x]
            if not real or any("unwinding assertion" in x for x in fl):
                self.undecided.append(f"Kani harness {h}: {per[h].get('result', 'no result')} {fl[:2]}")
                continue
            text = f"Kani harness {h}\n" + "\n".join(fl)
            # counterexample, replayed on the real code
            cmd2 = ["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback=print", "--harness", h, "--exact",
                    "-Z", "unstable-options", "--harness-timeout", "200s", "--default-unwind", "70"]
            rc2, o2, e2 = sh(cmd2, 300, env=env, cwd=ROOT / "kani")
            done = False
            for blk in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];", o2, re.S):
                vals = [bytes(int(x) for x in v.split(",") if x.strip()).hex() for v in re.findall(r"vec!\[([0-9, ]*)\]", blk)]
                rep = k.get("replay")
                if not rep or not vals:
                    continue
                parts = h.split("::")
                rc3, o3, e3 = self.run_bin("kr", [parts[-2], parts[-1], *vals], profile="dev")
                if rc3 == 1 and "FAIL" in o3:
                    self.violations.append((text + f"\ncounterexample (little-endian bytes): {vals}\nreplayed on the real code "
                                            f"(replay/src/bin/kr.rs {parts[-2]} {parts[-1]} {' '.join(vals)}):\n" + o3, False))
                    done = True
                    break
            if not done:
                self.violations.append((text + "\n" + o2[-3000:], True))

    # ------------------------------------------------------------ falsifier
    def build_bin(self, name, profile):
        return sh(["cargo", "build", "-q", "--offline", "--manifest-path", str(ROOT / "replay/Cargo.toml"),
                   *(["--release"] if profile == "release" else []), "--bin", name], 600)

    def run_bin(self, name, args=(), profile="dev", extra=None, timeout=300):
        rc, o, e = self.build_bin(name, profile)
        if rc != 0:
            return -999, o, e
        b = TARGET / ("release" if profile == "release" else "debug") / name
        return sh([str(b), *args], timeout, env=env_for(dict({"VERIF_SEED": self.seed, "VERIF_TIER": self.tier}, **(extra or {}))), limit_gb=12)

    def do_falsify(self):
        name = self.cfg["bin"]
        if name == "c05":
            (ROOT / "replay/gen").mkdir(exist_ok=True)
            rc, o, e = sh([sys.executable, str(ROOT / "tools/shapes.py"), str(ROOT / "replay/gen/shapes.rs"), self.seed,
                           "60" if not self.thorough else "300"], 60)
            if rc != 0:
                raise RuntimeError("shape generator failed: " + e)
        for profile in ("dev", "release"):
            t = time.time()
            rc, o, e = self.run_bin(name, profile=profile, timeout=300 if not self.thorough else 3000)
            label = "debug arithmetic" if profile == "dev" else "release arithmetic"
            how = (f"replay: cd /verif && VERIF_SEED={self.seed} VERIF_TIER={self.tier} CARGO_TARGET_DIR=/verif/target cargo run --offline "
                   f"{'--release ' if profile == 'release' else ''}--manifest-path replay/Cargo.toml --bin {name}   ({label})\n")
            if name == "c05":
                how += f"(shapes: python3 tools/shapes.py replay/gen/shapes.rs {self.seed} {'60' if not self.thorough else '300'})\n"
            if rc == 0:
                d = {"profile": label, "evaluations": 0, "distinct": 0, "labels": {}, "samples": []}
                for l in o.splitlines():
                    if l.startswith("evaluations: "):
                        d["evaluations"] = int(l.split()[1])
                    elif l.startswith("distinct: "):
                        d["distinct"] = int(l.split()[1])
                    elif l.startswith("label: "):
                        _, c, n = l.split(" ", 2)
                        d["labels"][n] = int(c)
                    elif l.startswith("sample: "):
                        d["samples"].append(l[8:][:400])
                with self.lock:
                    self.cov.setdefault("falsifier", []).append(d)
                if d["evaluations"] == 0:
                    raise RuntimeError("falsifier evaluated nothing: " + o[-500:] + e[-500:])
                self.note(f"falsifier {profile} ok, {d['evaluations']} evaluations, {time.time()-t:.1f}s")
                continue
            if rc == -999:
                # does the library itself still build?
                rl, ol, el = sh(["cargo", "build", "-q", "--offline", "--manifest-path", str(REPO / "Cargo.toml"), "-p", "ordinal-map",
                                 "--target-dir", str(TARGET / "lib")], 400)
                if rl == 0:
                    self.violations.append((how + "a client program that compiles on the unchanged tree does not compile any more:\n"
                                            + (o + e)[:6000], False))
                else:
                    raise RuntimeError("library does not build: " + el[-1500:])
                return
            if rc == 1 and f"FAIL {self.pid}" in o:
                i = o.index(f"FAIL {self.pid}")
                self.violations.append((how + o[i:i + 6000], False))
                return
            # crash, abort or no answer: find the case
            rc2, o2, e2 = self.run_bin(name, profile=profile, extra={"REPLAY_TRACE": "1"}, timeout=120)
            cases = [l for l in e2.splitlines() if l.startswith("CASE ")]
            if cases and (rc2 is None or rc2 != 0):
                what = "does not finish" if rc is None else f"ends with status {rc}"
                self.violations.append((how + f"the real code {what}; last case before it (REPLAY_TRACE=1):\n{cases[-1]}\n" + e[-1500:], False))
                return
            self.undecided.append(f"falsifier ended with status {rc} once and {rc2} on the second run: {e[-300:]}")

    # ------------------------------------------------------------ Miri
    def do_miri(self):
        m = self.cfg["miri"]
        env = env_for({"CARGO_TARGET_DIR": str(TARGET / "miri"), "VERIF_SEED": self.seed, "REPLAY_MINI": "1",
                       "MIRIFLAGS": "-Zmiri-disable-isolation " + m.get("flags", "")})
        rc, o, e = sh(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", str(ROOT / "replay/Cargo.toml"),
                       "--bin", self.cfg["bin"]], 600, env=env)
        if rc == 0 and f"OK {self.pid}" in o:
            n = [l for l in o.splitlines() if l.startswith("evaluations")]
            self.cov["miri"] = {"result": "no undefined behaviour, no leak", "evaluations": int(n[0].split()[1]) if n else 0}
            return
        ub = re.search(r"error: (Undefined Behavior|memory leaked|the evaluated program (deadlocked|panicked|leaked memory)|abnormal termination).*", e)
        how = (f"replay: cd /verif && REPLAY_MINI=1 VERIF_SEED={self.seed} MIRIFLAGS='-Zmiri-disable-isolation {m.get('flags','')}' CARGO_TARGET_DIR=/verif/target/miri "
               f"cargo +nightly miri run --offline --manifest-path replay/Cargo.toml --bin {self.cfg['bin']}\n")
        if f"FAIL {self.pid}" in o:
            self.violations.append((how + o[o.index("FAIL"):][:6000], False))
        elif ub:
            i = e.index(ub.group(0))
            self.violations.append((how + e[i:i + 6000], False))
        else:
            self.undecided.append("Miri run did not finish: " + (e or o)[-300:])

    # ------------------------------------------------------------ std contracts
    def do_std(self):
        """The assumed contracts of std, exercised on the real std by bounded Kani harnesses. Says nothing about /repo: never an alarm."""
        cmd = ["cargo", "kani", "--output-format", "terse", "-j", "4", "-Z", "unstable-options", "--harness-timeout", "200s",
               "--default-unwind", "6", "--harness", "std_"]
        rc, o, e = sh(cmd, 600, env=env_for({"CARGO_TARGET_DIR": str(TARGET / "kani")}), cwd=ROOT / "kani", limit_gb=None)
        m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", o)
        self.cov["std_contracts_bounded"] = {"harnesses": int(m.group(1)), "failures": int(m.group(2)),
                                             "bound": "sequences of length 3, 4 operations; words and ranges over their full width"} if m else "did not run"
        if m and int(m.group(2)):
            self.undecided.append("an assumed contract of std does not hold of the installed std: " + o[-400:])

    # ------------------------------------------------------------ compile-fail
    def do_cfail(self):
        import cfail
        cfail.run(self)

    # ------------------------------------------------------------ main
    def run(self):
        parts = []
        if self.cfg.get("verus"):
            parts.append(self.do_verus)
        if self.cfg.get("kani"):
            parts.append(self.do_kani)
        if self.cfg.get("verus") and self.thorough:
            parts.append(self.do_std)
        if self.cfg.get("bin"):
            parts.append(self.do_falsify)
        if "miri" in self.cfg and self.cfg["miri"] is not None:
            parts.append(self.do_miri)
        if self.cfg.get("cfail"):
            parts.append(self.do_cfail)
        for extra in self.cfg.get("extra", []):
            mod = __import__(extra)
            parts.append(lambda m=mod: m.run(self))
        errors = []

        def guard(f):
            try:
                f()
            except Exception:
                errors.append(traceback.format_exc())
        ths = [threading.Thread(target=guard, args=(f,)) for f in parts]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        # a concrete failing input is reported before a bare failed obligation
        self.violations.sort(key=lambda v: v[1])
        self.finish(errors)

    def finish(self, errors):
        fal = self.cov.get("falsifier", [])
        if not errors:
            errors = []
        level = self.cfg["level"]
        cov = self.cov
        cov["functions_out_of_reach_or_undecided"] = self.undecided
        if level == "proof":
            cov["obligations"] = self.obligations
            cov["discharged"] = self.discharged
            cov["checker_cmd"] = "; ".join(self.cmds) or "none ran"
            cov["trusted_base"] = self.trusted + self.cfg.get("trusted", [])
        cov["evaluations"] = sum(d["evaluations"] for d in fal)
        cov["distinct_nontrivial"] = max([d["distinct"] for d in fal] or [0])
        cov["rule"] = ("bounded stand-in / falsifier: generated histories and enumerated inputs run on the real crate and compared with a "
                       "model; distinct by hash of (case kind, whole input)")
        for d in fal:
            if len(d["labels"]) > 120:
                top = sorted(d["labels"].items(), key=lambda x: -x[1])
                d["kinds_of_case"] = len(top)
                d["labels"] = {k[:200]: v for k, v in top[:120]}
        cov["samples"] = (fal[0]["samples"] if fal else []) or cov.get("samples", [])
        if level == "other":
            cov["explanation"] = self.cfg["explanation"]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(self.seed) if self.seed.isdigit() else 0, "level": level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        (ROOT / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1))
        for l in self.log:
            print(l)
        for u in self.undecided:
            print("UNDECIDED:", u)
        if self.violations:
            text, noinput = self.violations[0]
            rp = ROOT / "evidence" / f"{self.pid}.replay.txt"
            rp.write_text(f"property {self.pid}: {config.title(self.pid)}\n\n" + "\n\n----\n\n".join(v[0] for v in self.violations)
                          + ("\n\nno failing input was found by the bounded run\n" if noinput else ""))
            print(text[:3000])
            print(f"VIOLATION property={self.pid} replay={rp}" + (" no-failing-input-found" if noinput else ""))
            sys.exit(1)
        if errors:
            print("\n".join(errors))
            print(f"ERROR property={self.pid}")
            sys.exit(2)
        for l in config.known_findings(self.pid):
            print(l)
        print(f"OK property={self.pid} obligations={self.obligations} discharged={self.discharged} "
              f"evaluations={cov['evaluations']} undecided={len(self.undecided)} wall={time.time()-self.t0:.1f}s")
        sys.exit(0)


if __name__ == "__main__":
    Check(sys.argv[1]).run()
