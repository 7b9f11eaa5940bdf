#!/usr/bin/env python3
"""check.py <property> : decides one property of ppt-rs on /repo's current working tree.

1. vx extracts the functions named by units/<unit>.vrs from /repo/src, with their contracts.
2. Verus discharges every obligation of the unit (twice: the second, `vacuity` run adds an
   unprovable postcondition to every contracted function, all of which must fail).
3. Kani decides loop-free harnesses over the real crate, for the properties that list them.
4. vharness replays the same contracts against the compiled real crate on generated inputs. It is
   the source of failing inputs, and the (bounded, labelled) stand-in for functions the verifier
   cannot reach. It never counts as proof.
Exit 0 / exit 1 + VIOLATION line, see DESIGN.md section "Verdicts".
"""
import json, os, re, subprocess, sys, time, hashlib, shutil, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(BUILD, "out")
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           HOME="/root", RUST_BACKTRACE="0", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
T0 = time.time()
DEADLINE = 840.0

def left():
    return DEADLINE - (time.time() - T0)

def run(cmd, timeout, cwd=None, env=None, stdin=None):
    t = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             errors="replace", start_new_session=True)
        try:
            o, e = p.communicate(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
            return -9, o, e + "\nTIMEOUT", time.time() - t
        return p.returncode, o, e, time.time() - t
    except OSError as x:
        return -1, "", str(x), time.time() - t

def die(msg):
    print("CHECK-ERROR: " + msg, file=sys.stderr)
    sys.exit(2)

def build_vx():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "vx"))
    rc, o, e, t = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "vx/Cargo.toml")], 400, env=env)
    if rc != 0:
        die("vx does not build:\n" + e)
    return os.path.join(BUILD, "vx/debug/vx")

def build_harness():
    """the harness crate is copied so that nothing is written beside the committed files"""
    d = os.path.join(BUILD, "hsrc")
    os.makedirs(d, exist_ok=True)
    for sub in ["src"]:
        s, t = os.path.join(VERIF, "harness", sub), os.path.join(d, sub)
        os.makedirs(t, exist_ok=True)
        for f in os.listdir(t):
            if not os.path.exists(os.path.join(s, f)):
                os.remove(os.path.join(t, f))
        for f in os.listdir(s):
            copy_if_new(os.path.join(s, f), os.path.join(t, f))
    ct = open(os.path.join(VERIF, "harness/Cargo.toml")).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    write_if_new(os.path.join(d, "Cargo.toml"), ct)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(d, "Cargo.lock"))
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "h"))
    rc, o, e, t = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(d, "Cargo.toml")], 600, env=env)
    if rc != 0:
        return None, e, t
    return os.path.join(BUILD, "h/debug/vharness"), "", t

def write_if_new(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)

def copy_if_new(a, b):
    if not os.path.exists(b) or open(a, "rb").read() != open(b, "rb").read():
        shutil.copyfile(a, b)

# ------------------------------------------------------------------------------------ Verus
FAIL_KINDS = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
    "invariant not satisfied", "decreases not satisfied", "possible division by zero", "unreachable", "recommendation not met",
    "possible bit shift underflow/overflow", "loop ensures", "assertion not satisfied", "unable to prove", "could not prove termination",
    "loop must have a decreases clause", "constant is not",
]

class Unit:
    pass

def parse_blocks(err):
    """split rustc-style diagnostics into blocks (kind, message, [lines])"""
    blocks, cur = [], None
    for l in err.splitlines():
        m = re.match(r"^(error|warning|note)(\[[^\]]*\])?: (.*)$", l)
        if m:
            cur = dict(kind=m.group(1), code=m.group(2), msg=m.group(3), text=[l], lines=[])
            blocks.append(cur)
        elif cur is not None:
            cur["text"].append(l)
            m = re.search(r"-->\s+\S+?:(\d+):(\d+)", l)
            if m:
                cur["lines"].append(int(m.group(1)))
            m = re.match(r"^\s*(\d+)\s*\|", l)
            if m:
                cur.setdefault("src", []).append((int(m.group(1)), l.split("|", 1)[1].strip()))
    return blocks

def fn_at(gen_lines, line):
    """name of the extracted function (VXFN) or the raw spec/proof function a generated line belongs to"""
    for i in range(min(line, len(gen_lines)) - 1, -1, -1):
        m = re.match(r"^// VXFN (\S+) (\S+)", gen_lines[i])
        if m:
            return m.group(1), m.group(2)
        m = re.match(r"^\s*(?:#\[[^\]]*\]\s*)?(?:pub\s+)?(?:broadcast\s+)?(?:open\s+)?(?:closed\s+)?(proof|spec)\s+fn\s+(\w+)", gen_lines[i])
        if m:
            return m.group(1) + " " + m.group(2), "unit"
        m = re.match(r"^// VXEND", gen_lines[i])
        if m:
            return "unit", "unit"
    return "unit", "unit"

def run_unit(vx, unit, tier, vacuity=False, stubs=()):
    u = Unit()
    u.name, u.stubs = unit, list(stubs)
    base = os.path.join(OUT, unit + ("_vac" if vacuity else ""))
    cmd = [vx, os.path.join(REPO, "src"), os.path.join(VERIF, "units", unit + ".vrs"), base + ".rs", base + ".json"]
    if vacuity:
        cmd.append("--vacuity")
    for s in stubs:
        cmd += ["--stub", s]
    rc, o, e, t = run(cmd, 60)
    u.map, u.vfails, u.compile, u.rlimit, u.verified, u.errors, u.smt_ms = {}, [], [], [], 0, 0, 0
    u.wall, u.err, u.cmd = t, e, ""
    u.extract_rc = rc
    if rc != 0:
        u.status = "lost"
        u.reason = e.strip()
        return u
    u.map = json.load(open(base + ".json"))
    u.gen = open(base + ".rs").read().splitlines()
    vcmd = ["verus", "--edition", "2024", os.path.basename(base) + ".rs", "--output-json", "--time", "--multiple-errors", "1" if vacuity else "6", "--rlimit",
            ("20" if vacuity else "60") if tier == "thorough" else ("4" if vacuity else "30"), "--num-threads", "6"]
    u.cmd = " ".join(vcmd)
    rc, o, e, t = run(vcmd, min(left(), 600 if tier == "thorough" else 400), cwd=OUT)
    u.wall, u.err = t, e
    try:
        j = json.loads(o[o.index("{"):])
        r = j["verification-results"]
        u.verified, u.errors = r.get("verified", 0), r.get("errors", 0)
        u.smt_ms = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        if not u.smt_ms:
            u.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        u.vir_error = r.get("encountered-vir-error", False)
        complete = "verified" in r and not u.vir_error
    except (ValueError, KeyError):
        complete = False
    u.complete = complete
    for b in parse_blocks(e):
        if b["kind"] != "error" or b["msg"].startswith("aborting due to"):
            continue
        line = b["lines"][0] if b["lines"] else 0
        fn, src = fn_at(u.gen, line) if line else ("unit", "unit")
        # a failed postcondition points at the clause; the function is the one whose body is blamed
        rec = dict(fn=fn, src=src, msg=b["msg"], text="\n".join(b["text"][:40]), line=line)
        if "resource limit" in b["msg"].lower() or "rlimit" in b["msg"].lower():
            u.rlimit.append(rec)
        elif complete and any(k in b["msg"] for k in FAIL_KINDS):
            u.vfails.append(rec)
        else:
            u.compile.append(rec)
    if rc == -9:
        u.status, u.reason = "timeout", "verus timeout"
    elif not complete or u.compile:
        u.status, u.reason = "compile", (u.compile[0]["msg"] if u.compile else e[-500:])
    elif u.vfails:
        u.status, u.reason = "fail", ""
    elif u.rlimit:
        u.status, u.reason = "rlimit", "solver resource limit"
    elif u.errors == 0 and u.verified > 0:
        u.status, u.reason = "ok", ""
    else:
        u.status, u.reason = "compile", "no result: " + e[-300:]
    return u

def verify_unit(vx, unit, tier):
    """extraction + proof; functions the verifier's front end cannot take are stubbed (their contract
    becomes an assumption of this run, labelled) so that the rest of the unit is still decided"""
    stubs = []
    for _ in range(6):
        u = run_unit(vx, unit, tier, stubs=stubs)
        bad = set()
        if u.status == "compile":
            bad = {r["fn"] for r in u.compile if not r["fn"].startswith(("proof ", "spec ", "unit"))}
        elif u.status == "lost" and u.extract_rc == 4:
            m = re.search(r"in fn (\S+)", u.reason)
            bad = {m.group(1)} if m else set()
        bad -= set(stubs)
        if not bad:
            break
        stubs += sorted(bad)
    if u.status in ("rlimit", "timeout") and left() > 300:
        u2 = run_unit(vx, unit, "thorough", stubs=stubs)
        if u2.status in ("ok", "fail"):
            u = u2
    return u

def trusted_scan(gen):
    out, body, inb = [], [], False
    for l in gen:
        if l.startswith("// VXFN"):
            inb = True
        if l.startswith("// VXEND"):
            inb = False
        if inb:
            body.append(l)
    for l in gen:
        if "uninterp spec fn" in l and "vx_vac" not in l:
            out.append("uninterpreted: " + re.sub(r"\s+", " ", l.strip())[:160])
        if re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            out.append("ASSUME: " + l.strip()[:160])
        if ("external_body" in l or "assume_specification" in l) and not l.strip().startswith("//"):
            m = re.findall(r"(?<!spec )fn\s+(\w+)", l)
            n = m[-1] if m else l.strip()[:120]
            # only those the extracted code actually calls
            if not m or any(re.search(r"\b%s\b" % n, x) for x in body):
                out.append("assumed contract: " + n)
        if "broadcast use" in l:
            out.append(l.strip()[:120])
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r

# ------------------------------------------------------------------------------------ Kani
def run_kani(harnesses, tier):
    """cargo kani over /verif/kani: the real source files, included by path; loop-free harnesses, every input symbolic"""
    src, d = os.path.join(VERIF, "kani"), os.path.join(BUILD, "ksrc")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    write_if_new(os.path.join(d, "src", "lib.rs"), open(os.path.join(src, "src", "lib.rs")).read().replace("@REPO@", REPO))
    # the two functions of core/validation.rs that the included files call, cut out of the current source
    v = open(os.path.join(REPO, "src/core/validation.rs")).read()
    write_if_new(os.path.join(d, "src", "clamp.rs"), "\n".join(m.group(0) for m in re.finditer(r"^pub fn clamp\w*\(.*?^}", v, re.M | re.S)))
    write_if_new(os.path.join(d, "Cargo.toml"), open(os.path.join(src, "Cargo.toml")).read())
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["cargo", "kani", "--target-dir", os.path.join(BUILD, "kani"), "-j", "6", "--output-format", "terse", "--exact"]
    for h in harnesses:
        cmd += ["--harness", "proofs::" + h]
    rc, o, e, t = run(cmd, min(left() - 30, 420 if tier == "quick" else 3000), cwd=d, env=env)
    res, cur, checks, th = {}, {}, 0, "0"
    for l in o.splitlines():
        m = re.match(r"Thread (\d+): *(.*)", l)
        if m:
            th, l = m.group(1), m.group(2)
        m = re.match(r"Checking harness (\S+)\.\.\.", l)
        if m:
            cur[th] = m.group(1)
        m = re.search(r"\*\* (\d+) of (\d+) failed", l)
        if m:
            checks += int(m.group(2))
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m and th in cur:
            res[cur[th]] = m.group(1)
    failed_checks = re.findall(r"Failed Checks: (.*)", o)
    undecided = [h for h in harnesses if "proofs::" + h not in res]
    return dict(rc=rc, results=res, checks=checks, failed=failed_checks, undecided=undecided, out=o, err=e, wall=t, cmd=" ".join(cmd))

# ------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    if len(sys.argv) < 2:
        die("usage: check.py <property>|--setup")
    props = json.load(open(os.path.join(VERIF, "props.json")))
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "--setup":
        build_vx()
        hb, e, t = build_harness()
        if hb is None:
            print(e[-2000:], file=sys.stderr)
        print("setup done in %.0f s" % (time.time() - T0))
        sys.exit(0 if hb else 1)
    prop = sys.argv[1]
    if prop not in props:
        die("unknown property " + prop)
    P = props[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier == "thorough":
        global DEADLINE
        DEADLINE = 3600.0
    vx = build_vx()
    # the harness is compiled while the provers run
    import threading
    hres = {}
    def hb():
        hres["r"] = build_harness()
    th = threading.Thread(target=hb)
    th.start()
    units, vac = [], []
    for un in P.get("units", []):
        u = verify_unit(vx, un, tier)
        units.append(u)
        if u.status in ("ok", "fail", "rlimit"):
            v = run_unit(vx, un, tier, vacuity=True, stubs=u.stubs)
            v.expected = {k[3:] for k, x in u.map.items() if k.startswith("fn ") and x["contract"]} - set(u.stubs)
            # a failed `vx_vac` postcondition names the function
            v.failing = {r["fn"] for r in v.vfails + v.rlimit}
            v.vacuous = sorted(v.expected - v.failing) if v.complete else None
            vac.append(v)
    kani = None
    th.join()
    kh = P.get("kani", []) + (P.get("kani_thorough", []) if tier == "thorough" else [])
    if kh:
        kani = run_kani(kh, tier)
    hbin, herr, hbt = hres["r"]
    if hbin is None:
        die("the harness does not build against %s:\n%s" % (REPO, herr[-3000:]))
    H = None
    if P.get("harness"):
        scratch = os.path.join(BUILD, "scratch", prop)
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        budget = P.get("budget", 40) if tier == "quick" else P.get("budget_thorough", 600)
        if any(u.status not in ("ok",) for u in units):
            budget *= 2
        budget = min(budget, max(10, left() - 60))
        hout = os.path.join(OUT, prop + ".harness.json")
        if os.path.exists(hout):
            os.remove(hout)
        env = dict(ENV, VERIF_SEED=str(seed), TMPDIR=scratch)
        rc, o, e, t = run([hbin, P["harness"], hout, str(int(budget)), tier], budget + 60, cwd=scratch, env=env)
        shutil.rmtree(scratch, ignore_errors=True)
        if not os.path.exists(hout):
            H = dict(crashed=True, rc=rc, err=e[-2000:], fails=[dict(key="harness-abort", what="the process running the real code died (rc %s)" % rc, input=e[-1500:])], cases=0, distinct=0, samples=[], rule="")
            if rc == -9:
                H["fails"] = []
        else:
            H = json.load(open(hout))
            H["crashed"] = False
        H["wall"] = t
    # ------------------------------------------------------------------ verdict
    known = known_findings(prop)
    kkeys = {k for k, _ in known}
    viol, hits = [], set()
    if H:
        for f in H["fails"]:
            if f["key"] in kkeys:
                hits.add(f["key"])
            else:
                viol.append(("input", f))
    obl_fail = []
    for u in units:
        if u.status == "fail":
            for r in u.vfails:
                k = "obl:%s:%s" % (r["fn"], re.sub(r"\W+", "-", r["msg"]).strip("-"))
                if k in kkeys:
                    hits.add(k)
                else:
                    obl_fail.append((u, r))
        for v in vac:
            pass
    kani_fail = []
    if kani:
        for h, r in kani["results"].items():
            if r == "FAILED":
                k = "kani:" + h.split("::")[-1]
                if k in kkeys:
                    hits.add(k)
                else:
                    kani_fail.append(h)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".txt")
    if os.path.exists(rpath):
        os.remove(rpath)
    rep = []
    for u, r in obl_fail:
        rep.append("FAILED OBLIGATION  unit %s, function %s (%s): %s\n%s\n" % (u.name, r["fn"], r["src"], r["msg"], r["text"]))
    for h in kani_fail:
        rep.append("FAILED KANI HARNESS %s\n%s\n" % (h, "\n".join(kani["failed"])))
    for k, f in viol:
        rep.append("FAILING INPUT on the real code [%s]\n%s\ninput: %s\n" % (f["key"], f["what"], f["input"]))
    # ------------------------------------------------------------------ evidence
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    if kani:
        obligations += kani["checks"]
        discharged += kani["checks"] - len(kani["failed"])
    funs, assumed, dropped, contracted = [], [], [], 0
    trusted = []
    for u in units:
        for k, x in u.map.items():
            if k.startswith("fn "):
                st = "assumed (stubbed this run)" if k[3:] in u.stubs else "contract" if x["contract"] else "no contract, verified for panics"
                funs.append("%s %s:%s [%s]" % (k[3:], x["file"], x["line"], st))
                if x["contract"]:
                    contracted += 1
            for dd in x["dropped"]:
                dropped.append("%s: %s" % (k, dd))
            for dd in x["inlined"]:
                dropped.append("%s: helper %s inlined" % (k, dd))
        if hasattr(u, "gen"):
            trusted += [x for x in trusted_scan(u.gen) if x not in trusted]
    proved = bool(units or kani) and all(u.status == "ok" and not u.stubs for u in units)
    vacuous = [(v.name, v.vacuous) for v in vac if v.vacuous]
    cov = dict(obligations=obligations, discharged=discharged,
               checker_cmd="; ".join([u.cmd for u in units] + ([kani["cmd"]] if kani else [])) or "none",
               trusted_base=trusted + P.get("trusted", []) + ["vx extraction (desugarings D1-D11, DESIGN.md)"],
               backend="Verus 0.2026.09.13 / Z3" + (" ; Kani 0.68 / CBMC" if kani else ""),
               units=[dict(unit=u.name, status=u.status, reason=u.reason[:400], verified=u.verified, errors=u.errors, smt_ms=u.smt_ms, wall_s=round(u.wall, 2), stubbed=u.stubs, solver_limit=[r["fn"] for r in u.rlimit]) for u in units],
               functions_under_contract=contracted, functions=funs, extraction_drops=dropped,
               vacuity=[dict(unit=v.name, contracted=len(v.expected), must_fail_and_did=len(v.expected & v.failing), vacuous=v.vacuous) for v in vac],
               unverified_surroundings=P.get("unverified", []))
    if kani:
        cov["kani"] = dict(results=kani["results"], undecided=kani["undecided"], checks=kani["checks"], wall_s=round(kani["wall"], 1))
    if H:
        cov["bounded_replay"] = dict(label="bounded: contracts replayed on the compiled crate, not counted as proved", evaluations=H["cases"], distinct_nontrivial=H["distinct"], rule=H.get("rule", ""), samples=H["samples"][:6], wall_s=round(H["wall"], 1))
        cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = H["cases"], H["distinct"], H.get("rule", "") or "see DESIGN.md", H["samples"][:6] or ["none"]
    level = P["level"]
    if not proved and level == "proof":
        level = "other"
        cov["explanation"] = "not every unit was decided by the verifier on this run: " + "; ".join("%s: %s %s" % (u.name, u.status, u.reason[:200]) for u in units if u.status != "ok" or u.stubs) + " -- only the bounded replay and the remaining units support this verdict"
    if level == "other" and "explanation" not in cov:
        cov["explanation"] = P.get("note", "")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=P.get("assumptions", []) + trusted[:0],
              wall_s=round(time.time() - T0, 1), violations=len(viol) + len(obl_fail) + len(kani_fail))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    # ------------------------------------------------------------------ report
    for u in units:
        print("unit %s: %s, %d functions verified, %d errors, %.1f s%s" % (u.name, u.status, u.verified, u.errors, u.wall, (" stubbed " + ",".join(u.stubs)) if u.stubs else ""))
        if u.reason:
            print("   " + u.reason[:300].replace("\n", " "))
    for v in vac:
        print("vacuity %s: %d/%d contracted functions reach their end" % (v.name, len(v.expected & v.failing), len(v.expected)) + (" VACUOUS: " + ",".join(v.vacuous) if v.vacuous else ""))
    if kani:
        print("kani: %s undecided %s (%.0f s)" % (kani["results"], kani["undecided"], kani["wall"]))
        if not kani["results"]:
            print(kani["out"][-1500:] + kani["err"][-1500:])
    if H:
        print("bounded replay: %d cases, %d distinct, %.1f s" % (H["cases"], H["distinct"], H["wall"]) + (" (process died)" if H.get("crashed") else ""))
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, d, "" if k in hits else " (not re-observed on this run)"))
    if rep:
        open(rpath, "w").write("property %s\n\n" % prop + "\n".join(rep))
        for x in rep[:5]:
            print(x[:1500])
        suffix = "" if viol else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, rpath, suffix))
        sys.exit(1)
    if obligations == 0 and units:
        print("note: no obligation was generated on this run; bounded replay only")
    if vacuous:
        print("note: vacuous contracts on this run: %s" % vacuous)
    print("OK property=%s %s (%.0f s)" % (prop, "proved" if proved else "held on everything explored", time.time() - T0))
    sys.exit(0)

main()
