"""C05, every declaration: the derive macro's code generator itself under contract.

The generator (ordinal-map-derive/src/ordinal.rs) is extracted mechanically on every run; each exact quoted
template is replaced by a call whose assumed contract states what the quoted code means (overlay_derive/
model.rs, templates.txt). A template that is not in the table has no meaning: the functions it is in are
undecided, never alarmed about. Lemmas over the contracts state the property (prop_* in ordinal.ov).
"""
import json, re
from pathlib import Path


def run(c):
    import check
    eng = check.TARGET / "debug" / "ovx"
    rc, _, e = check.sh(["cargo", "build", "-q", "--offline", "--manifest-path", str(check.ROOT / "engine/Cargo.toml")], 400)
    if rc != 0:
        raise RuntimeError("engine build failed: " + e[-2000:])
    src, ov = check.REPO / "ordinal-map-derive/src", check.ROOT / "overlay_derive"
    cov = c.cov.setdefault("derive_generator", {})
    quarantine, drop, reasons = [], [], {}

    def extract(tag, *more):
        args = [str(eng), str(src), str(ov), str(c.build / f"{tag}.rs"), str(c.build / f"{tag}.json"), "--derive", str(ov / "templates.txt"), *more]
        for k in quarantine:
            args += ["--quarantine", k]
        for k in drop:
            args += ["--drop", k]
        rc, _, e = check.sh(args, 60)
        if rc != 0:
            c.undecided.append("derive generator: extraction failed: " + e.strip()[-300:])
            return None
        return json.loads((c.build / f"{tag}.json").read_text())

    for _ in range(10):
        meta = extract("g")
        if meta is None:
            return
        text = (c.build / "g.rs").read_text()
        ranged = [f for f in meta["fns"] if f["to"] > 0 and f["status"] != "skipped"]
        r = c.verus_run(text, "g", ["--multiple-errors", "4", "--rlimit", "30" if not c.thorough else "60"], 300)
        if r is None:
            c.undecided.append("derive generator: verifier timed out")
            return
        rc, js, diags = r
        errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due")]
        comp = [d for d in errs if not check.VERR.search(d["message"]) and not check.RLIM.search(d["message"])]
        if not comp:
            break
        progress = False
        for d in comp:
            for f in c.owner(d, ranged):
                k = f["key"].split("#")[0]
                reasons.setdefault(k, d["message"])
                if k not in quarantine and f["status"] != "quarantined":
                    quarantine.append(k)
                    progress = True
                elif k not in drop:
                    drop.append(k)
                    progress = True
        if not progress:
            c.undecided.append("derive generator: extracted text rejected by the verifier: " + comp[0]["message"][:300])
            return
    else:
        c.undecided.append("derive generator: extracted text still rejected after quarantine")
        return
    errs = c.retry(errs, ranged, ["--multiple-errors", "4", "--rlimit", "60"], "g", 200)
    failing, limited = {}, {}
    for d in errs:
        own = c.owner(d, ranged) or [{"key": "<ghost>", "props": [], "status": "lemma", "problems": []}]
        clause = [s for s in d["spans"] if (s.get("label") or "").startswith("failed ")] or [s for s in d["spans"] if s.get("is_primary")]
        ctext = " ".join(t["text"].strip() for s in clause for t in s.get("text", []))[:300]
        for f in own:
            (limited if check.RLIM.search(d["message"]) else failing).setdefault(f["key"].split("#")[0], []).append((d["message"], ctext, d.get("rendered", "")))
    lines = text.split("\n")
    bykey = {}
    for f in ranged:
        bykey.setdefault(f["key"].split("#")[0], []).append(f)
    tagged = [k for k, fs in bykey.items() if any(c.pid in f["props"] for f in fs)]
    uncontracted = [f["key"].split("::")[-1] for f in meta["fns"] if f["status"] == "nocontract"]

    def body(k):
        return "\n".join("\n".join(lines[f["from"] - 1:f["to"]]) for f in bykey.get(k, []))
    # a template without a meaning, or a helper without a contract: what uses it is undecided
    soft = set(quarantine) | set(drop)
    for k in bykey:
        b = body(k)
        if "q::unknown()" in b or any(p for f in bykey[k] for p in f["problems"]) or \
                any(re.search(r"\b" + re.escape(u) + r"\s*(::<[^>]*>)?\(", b) for u in uncontracted if not k.endswith("::" + u)):
            soft.add(k)
    status = {k: ("failed" if k in failing else "resource limit" if k in limited else bykey[k][0]["status"] if bykey[k][0]["status"] in ("trusted", "quarantined") else "verified")
              for k in tagged}
    c.obligations += len(tagged)
    c.discharged += sum(s == "verified" for s in status.values())
    for k in quarantine + drop:
        c.undecided.append(f"derive generator: {k}: out of the verifier's reach ({reasons.get(k, '')[:160]})")
    for k in limited:
        c.undecided.append(f"derive generator: {k}: resource limit")
    for l in meta["lost"]:
        c.undecided.append(f"derive generator: {l.partition('|')[0]}: the contract's function is no longer in the source")
    for k, v in failing.items():
        what = f"derive generator: {k}: {v[0][0]}: {v[0][1]}"
        if k not in tagged or k in soft:
            c.undecided.append(what + (" (contract does not fit the source any more)" if k in soft else ""))
        else:
            f = bykey[k][0]
            c.violations.append((f"failed obligation in {k} (source: ordinal-map-derive/src/{f.get('src', '')}:{f.get('src_line', '')})\n" + "\n".join(x[2] for x in v), True))
    used = [t for t in meta["unknown_templates"]]
    res = js.get("verification-results", {})
    c.cmds.append("ovx /repo/ordinal-map-derive/src overlay_derive build/g.rs build/g.json --derive overlay_derive/templates.txt && verus build/g.rs")
    cov.update({"functions_under_contract": sorted(tagged), "not_verified": {k: s for k, s in status.items() if s != "verified"},
                "verified": res.get("verified", 0), "errors": res.get("errors", 0), "total_ms": js.get("times-ms", {}).get("total"),
                "templates_without_meaning": used,
                "assumption_scan": {w: len(re.findall(r"\b" + w + r"\b", text)) for w in ("assume", "admit", "external_body", "axiom")}})
    if res.get("verified", 0) + res.get("errors", 0) < 100:
        c.undecided.append("derive generator: only %d functions reached the verifier" % res.get("verified", 0))
    # vacuity
    if extract("gw", "--canary") is None:
        return
    r = c.verus_run("", "gw", ["--multiple-errors", "1", "--rlimit", "20"], 300)
    if r is None:
        c.undecided.append("derive generator: vacuity run did not finish")
        return
    wr = [f for f in json.loads((c.build / "gw.json").read_text())["fns"] if f["to"] > 0 and f["status"] == "contract" and f.get("canary")]
    dead = {f["key"] for d in r[2] if d.get("level") == "error" for s in d.get("spans", []) for f in wr if f["from"] <= s["line_start"] <= f["to"]}
    vac = [f["key"] for f in wr if f["key"] not in dead]
    cov["vacuity"] = {"bodies_where_assert_false_must_fail": len(wr), "not_failing": vac}
    for v in vac:
        c.undecided.append(f"derive generator: {v}: contradictory precondition, its proof says nothing")
