#!/usr/bin/env python3
"""Check driver:  run.py <property> [quick|thorough]

Rebuilds the contract harnesses of one property from /repo's current tree,
lets the deductive back ends discharge every obligation, replays any verifier
counterexample on the real code, and writes evidence/<property>.json.

Exit 0: held on everything decided.  Exit 1 + VIOLATION line: broken.
"""
import json, os, re, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import config  # noqa: E402

PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CFG = config.CHECKS[PID]
T0 = time.time()
BUDGET = 820 if TIER == "quick" else 3 * 3600
WORK = os.path.join(ROOT, ".work", PID)
TARGET = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "target"))
os.makedirs(WORK, exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
KANI_TOOLCHAIN_DROP = ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR")


def left():
    return BUDGET - (time.time() - T0)


def env(native, crate):
    e = {k: v for k, v in os.environ.items() if k not in KANI_TOOLCHAIN_DROP}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if crate.get("rustflags"):
        e["RUSTFLAGS"] = crate["rustflags"]
    if native:
        e["RUSTUP_TOOLCHAIN"] = "1.76.0"
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
        e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return e


def sh(cmd, timeout, cwd, env, log):
    """Run in its own process group; returns (rc or None on timeout, output)."""
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    return rc, open(log, errors="replace").read()


class Unit:
    """One harness crate, restricted to this property's feature."""

    def __init__(self, name):
        self.crate = config.CRATES[name]
        self.name = name
        self.dir = os.path.join(ROOT, self.crate["dir"])
        self.feature = PID.lower()
        self.bin = None
        self.native_log = ""
        self.kfeatures = self.feature + (",deep" if TIER == "thorough" and CFG.get("deep") else "")
        self.extra = CFG.get("kani_flags", [])
        self.kcmd = []

    # -- native side -----------------------------------------------------
    def native_target(self):
        return os.path.join(TARGET, f"native-{self.name}-{self.feature}")

    def build_native(self):
        cmd = ["cargo", "build", "-q", "--offline", "--features", self.feature, "--target-dir", self.native_target()]
        rc, out = sh(cmd, left(), self.dir, env(True, self.crate), os.path.join(WORK, f"native-{self.name}.log"))
        self.native_log = out
        b = os.path.join(self.native_target(), "debug", self.crate["bin"])
        if rc == 0 and os.path.exists(b):
            self.bin = b

    def native(self, *args, timeout=120, tag="run"):
        if not self.bin:
            return None, ""
        e = env(True, self.crate)
        scratch = os.path.join(WORK, "scratch")
        os.makedirs(scratch, exist_ok=True)
        e["TMPDIR"] = scratch
        rc, out = sh([self.bin, *map(str, args)], timeout, scratch, e, os.path.join(WORK, f"{tag}-{self.name}.log"))
        return rc, out

    # -- verifier side ---------------------------------------------------
    def kani(self, flags, timeout, tag):
        js = os.path.join(WORK, f"kani-{self.name}-{tag}.json")
        if os.path.exists(js):
            os.remove(js)
        cmd = ["nice", "-n", "10", "cargo", "kani", "--target-dir", os.path.join(TARGET, f"kani-{self.name}-{self.feature}"),
               "--features", self.kfeatures, "-Z", "unstable-options", "-Z", "stubbing",
               "--output-format", "terse", "--export-json", js] + self.extra + flags
        self.kcmd.append("cargo kani --features " + self.kfeatures + " " + " ".join(self.extra + flags))
        rc, out = sh(cmd, timeout, self.dir, env(False, self.crate), os.path.join(WORK, f"kani-{self.name}-{tag}.log"))
        try:
            data = json.load(open(js))
        except (OSError, ValueError):
            data = None
        return rc, out, data


UNDECIDED_CATS = {"unwind", "unsupported_construct", "recursion", "reachability_check", "loop_decreases", "unsupported"}


def undecided_check(c):
    d = c.get("description", "")
    return (c.get("category") in UNDECIDED_CATS or "unwinding assertion" in d or "not currently supported" in d
            or "recursion unwinding" in d or "foreign function" in d
            or d.startswith("NaN on") or c.get("status") not in ("Failure", "FAILURE"))


def read_results(data):
    """harness -> dict(status, fails, undec, passed, total, dur, checks)."""
    res = {}
    if not data:
        return res
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data.get("cbmc", []) if c}
    for r in (data.get("verification_results") or {}).get("results", []):
        h = r["harness_id"]
        checks = r.get("checks") or []
        bad = [c for c in checks if c.get("status") not in ("Success", "SUCCESS", "Unreachable", "UNREACHABLE",
                                                            "Satisfied", "SATISFIED", "Covered")]
        fails = [c for c in bad if not undecided_check(c)]
        ok = r.get("status") == "Success"
        own = [c for c in checks if (c.get("location") or {}).get("file", "").startswith("src/")]
        live = [c for c in own if c.get("status") in ("Success", "Satisfied")]
        res[h] = dict(ok=ok, fails=fails, bad=bad, checks=checks, live=len(live),
                      dur=r.get("duration_ms", 0) / 1000, solver=(stats.get(h) or {}).get("runtime_decision_procedure_s", 0))
    return res


def short(h):
    return h.split("::")[-1]


def concrete_values(out):
    """Parse `--concrete-playback=print` output into hex chunks."""
    runs = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        runs.append([bytes(int(x) for x in v.split(",") if x.strip()).hex() or "" for v in re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))])
    return runs


violations = []   # dict(kind, harness, input, detail)
undecided = []    # (harness, reason)
notes = []


def write_replay(kind, unit, harness, inp, detail, verifier):
    p = os.path.join(WORK, f"replay-{harness}.txt")
    feat = unit.feature if unit else ""
    with open(p, "w") as f:
        f.write(f"property: {PID} ({CFG['title']})\nkind: {kind}\nobligation: {harness}\n")
        if inp is not None:
            f.write(f"input (hex, little endian, one item per value drawn): {inp}\n")
            f.write(f"failure on the real code: {detail}\n")
            f.write(f"reproduce: cd {unit.dir} && CARGO_NET_OFFLINE=true cargo +1.76.0 run -q --features {feat} -- replay {harness} {inp}\n")
        else:
            f.write(f"failed obligation: {detail}\nno failing input was found on the real code\n")
        f.write("\n---- verifier / runner output ----\n" + verifier + "\n")
    return p


def triage(unit, full, r):
    """A harness whose obligation failed.  Replay or search natively."""
    h = short(full)
    desc = "; ".join(sorted({f"{c.get('description')} [{c.get('function')}]" for c in r["fails"]}))[:1500]
    verifier = json.dumps(r["fails"][:10], indent=1)
    rc, out, _ = unit.kani(["--harness", full, "--exact", "-Z", "concrete-playback", "--concrete-playback=print",
                            "--harness-timeout", "120s" if violations else "200s"], min(180 if violations else 300, max(30, left() - 120)), "playback-" + h)
    vals = concrete_values(out)
    verifier += "\n" + out[-6000:]
    passed_replay = False
    for v in vals:
        inp = ",".join(x or "-" for x in v) or "-"
        rc, nout = unit.native("replay", h, inp, timeout=60)
        if rc == 3:
            violations.append(dict(kind="verifier counterexample, replayed", harness=h, found=True,
                                   path=write_replay("verifier counterexample replayed on the real code", unit, h, inp, nout.strip(), verifier)))
            return
        passed_replay |= rc == 0
    rc, nout = unit.native("search", h, SEED, 20, timeout=60)
    m = re.search(r"^FAIL (\S+) (.*)$", nout, re.M)
    if rc == 3 and m:
        violations.append(dict(kind="failed obligation, witness found by search", harness=h, found=True,
                               path=write_replay("failed obligation; witness found by native search of the same contract", unit, h, m.group(1), m.group(2), verifier)))
        return
    if (passed_replay or not vals) and h in CFG.get("stubbed", ()) or "Stub:" in out and (passed_replay or not vals):
        # The obligation was stated over a callee's contract; the real code meets
        # the contract on the verifier's own counterexample, so nothing is decided.
        undecided.append((h, "counterexample of a stubbed obligation does not reproduce on the real code: " + desc[:200]))
        return
    violations.append(dict(kind="failed obligation", harness=h, found=False,
                           path=write_replay("failed obligation", unit, h, None, desc, verifier)))


def known_findings():
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) witness=(\S+) (.*)", line.strip())
            if m and m.group(1) == PID:
                out[m.group(2)] = m.group(3)
    return out


def run_bounded(unit, known, stats):
    """Every bounded native check, each in its own process."""
    _, out = unit.native("list", tag="list")
    names = [l.split()[1] for l in out.splitlines() if l.startswith("bounded ")]
    queue = list(names)

    def worker():
        while queue:
            try:
                bounded_one(unit, queue.pop(0), known, stats)
            except IndexError:
                return
    ts = [threading.Thread(target=worker) for _ in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return len(names)


def bounded_one(unit, name, known, stats):
    mult = CFG.get("mult", (10, 200))[0 if TIER == "quick" else 1]
    secs = CFG.get("secs", (20, 600))[0 if TIER == "quick" else 1]
    rc, out = unit.native("bounded", SEED, secs, mult, name, timeout=max(30, min(left() - 60, 6 * secs + 60)), tag="bounded-" + name)
    for line in out.splitlines():
        m = re.match(r"BOUNDED (\S+) PASS (\d+) (\S+)", line)
        if m:
            stats[m.group(1)] = dict(cases=int(m.group(2)), seconds=float(m.group(3)))
            continue
        m = re.match(r"BOUNDED (\S+) FAIL (\S+) (.*)", line)
        if m:
            rc2, _ = unit.native("replay", m.group(1), m.group(2), timeout=120, tag="again-" + name)
            p = write_replay("bounded check on the real code" + ("" if rc2 == 3 else " (input did not fail again on replay)"),
                             unit, m.group(1), m.group(2), m.group(3), line)
            violations.append(dict(kind="bounded", harness=m.group(1), found=True, path=p))
            continue
        m = re.match(r"KNOWN (\S+) (PASS|FAIL) ?(.*)", line)
        if m and m.group(2) == "FAIL":
            if m.group(1) in known:
                print(f"KNOWN-FINDING: property={PID} {known[m.group(1)]}")
                notes.append(f"known finding {m.group(1)} still fails: {m.group(3)}")
            else:
                p = write_replay("witness check", unit, m.group(1), "-", m.group(3), line)
                violations.append(dict(kind="bounded", harness=m.group(1), found=True, path=p))
    if rc not in (0, 3):
        # aborted (stack overflow, OOM kill, timeout): the real code did not survive
        if rc is not None and rc < 0 and rc not in (-9, -15):
            p = write_replay("bounded check on the real code aborted the process", unit, name, "-", f"signal {-rc}", out[-3000:])
            violations.append(dict(kind="bounded", harness=name, found=True, path=p))
        else:
            undecided.append((name, f"bounded stage ended with {rc}"))


def main():
    known = known_findings()
    all_res, kani_state, bounded = {}, [], {}
    builds = []
    units = [Unit(n) for n in CFG["units"]]
    def native_side(u):
        u.build_native()
        run_bounded(u, known, bounded)
    for u in units:
        t = threading.Thread(target=native_side, args=(u,))
        t.start()
        builds.append(t)
    verus_state = None
    vt = None
    if CFG.get("verus"):
        import verus_stage
        box = {}
        vt = threading.Thread(target=lambda: box.update(verus_stage.run(PID, CFG["verus"], WORK, TIER)))
        vt.start()
    ht = CFG.get("harness_timeout", (120, 1500))[0 if TIER == "quick" else 1]
    for u in units:
        if CFG.get("no_kani") or u.crate.get("no_kani"):
            kani_state.append((u, "none"))
            continue
        only = [a for q in CFG.get("quick", ()) for a in ("--harness", q)] if TIER == "quick" else []
        rc, out, data = u.kani(["-j", str(CFG.get("jobs", 8)), "--harness-timeout", f"{ht}s"] + only, min(520, left() - 200) if TIER == "quick" else left() - 600, "main")
        res = read_results(data)
        if not res:
            why = "overall time limit" if rc is None else "the verifier could not process the crate"
            tail = [l for l in out.splitlines() if l.startswith("error")][:3]
            notes.append(f"Kani produced no result for {u.name}: {why} {' | '.join(tail)}")
            undecided.append((u.name, why))
        kani_state.append((u, "ok" if res else "failed"))
        for h, r in res.items():
            all_res[(u, h)] = r
    for t in builds:
        t.join()
    for u in units:
        if not u.bin:
            # /repo itself does not build (or its API moved): nothing can be decided.
            tail = "\n".join(u.native_log.splitlines()[-30:])
            print(f"note: the native harness build failed for {u.name}:\n{tail}", file=sys.stderr)
            notes.append(f"native harness build failed for {u.name}")
    # vacuity, undecided and failures
    discharged = obligations = 0
    failed = []
    for (u, h), r in all_res.items():
        obligations += len(r["checks"])
        good = [c for c in r["checks"] if c.get("status") in ("Success", "Unreachable", "Satisfied")]
        discharged += len(good)
        if r["fails"]:
            failed.append((u, h, r))
        elif not r["ok"]:
            undecided.append((short(h), "; ".join(sorted({c.get("description", "")[:80] for c in r["bad"]}))[:200] or "solver time limit"))
        elif r["live"] == 0:
            undecided.append((short(h), "vacuous: no reachable obligation of the harness itself"))
    failed.sort(key=lambda x: x[2]["dur"])
    for n, (u, h, r) in enumerate(failed):
        # One reproduced obligation is enough; with a bounded witness at hand
        # only the first is tried.
        reproduced = [v["kind"] for v in violations if v["found"]]
        if n < 4 and not (reproduced and (n or left() < 300)) and not any(k != "bounded" for k in reproduced):
            triage(u, h, r)
        else:
            notes.append("also failed: " + short(h))
    # larger unwinding for loops that outgrew their bound
    retried = []
    for h, why in list(undecided):
        if "unwinding assertion" in why and left() > 300 and len(retried) < 3:
            u, full = next((u, f) for (u, f) in all_res if short(f) == h)
            rc, out, data = u.kani(["--harness", full, "--exact", "--unwind", "48", "--harness-timeout", "100s"], 160, "unwind-" + h)
            rr = read_results(data).get(full)
            retried.append(h)
            if rr and rr["ok"]:
                undecided.remove((h, why))
                notes.append(f"{h} discharged with a larger unwinding bound")
            elif rr and rr["fails"]:
                undecided.remove((h, why))
                triage(u, full, rr)
    # witnesses for undecided obligations
    names = {short(f): u for (u, f) in all_res}
    todo = [(h, w) for h, w in undecided if h in names]
    if any(s == "failed" for _, s in kani_state):
        for u, s in kani_state:
            if s == "failed" and u.bin:
                _, out = u.native("list")
                todo += [(l, "no verdict") for l in out.split("\n") if l and not l.startswith("bounded ")]
                names.update({l: u for l, _ in todo})
    stand_in = {}
    for h, why in todo:
        if left() < 60 or violations:
            break
        u = names[h]
        rc, out = u.native("search", h, SEED, max(1, min(10, (left() - 60) / max(1, len(todo)))), timeout=40)
        m = re.search(r"^FAIL (\S+) (.*)$", out, re.M)
        if rc == 3 and m:
            violations.append(dict(kind="bounded", harness=h, found=True,
                                   path=write_replay("undecided by the verifier; witness found by bounded native search", u, h, m.group(1), m.group(2), out)))
        else:
            stand_in[h] = dict(reason=why, bounded_search=out.strip()[:120])
    vout = {}
    if vt:
        vt.join()
        vout = box
        obligations += vout.get("obligations", 0)
        discharged += vout.get("discharged", 0)
        for f in vout.get("failed", []):
            # a Verus obligation that held on the unchanged tree no longer does
            hit = next((v for v in violations if v["found"]), None)
            if hit:
                notes.append(f"Verus obligation failed as well: {f['obligation']}")
                continue
            p = os.path.join(WORK, f"replay-verus-{f['obligation'].replace('/', '_')}.txt")
            open(p, "w").write(f"property: {PID} ({CFG['title']})\nfailed obligation: {f['obligation']}\nno failing input was found on the real code\n\n---- verifier output ----\n{f['output']}\n")
            violations.append(dict(kind="verus", harness=f["obligation"], found=False, path=p))
        for f in vout.get("undecided", []):
            undecided.append(tuple(f))
    # evidence
    funcs = {}
    for (u, h), r in all_res.items():
        for c in r["checks"]:
            loc = (c.get("location") or {}).get("file", "")
            if "/repo/" in loc or loc.startswith(("../../../repo", "/repo")):
                funcs.setdefault(c.get("function", "?"), [0, 0])
                funcs[c["function"]][0] += 1
                funcs[c["function"]][1] += c.get("status") == "Success"
    proof = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"python3 run.py {PID} {TIER}" + " ; " + " ; ".join(c for u in units for c in u.kcmd[:1]),
        trusted_base=config.TRUSTED + CFG.get("trusted", []),
        explanation=CFG.get("explanation", ""),
        back_ends=(["Kani 0.68.0 / CBMC 6.11.0 (cadical)"] if all_res else []) + (["Verus / Z3"] if vout.get("obligations") else []),
        harnesses={short(h): dict(obligations=len(r["checks"]), discharged=sum(c.get("status") in ("Success", "Unreachable", "Satisfied") for c in r["checks"]),
                                  bounded=config.bounded_label(short(h), CFG), seconds=round(r["dur"], 2), solver_s=round(r["solver"] or 0, 3))
                   for (u, h), r in sorted(all_res.items(), key=lambda x: x[0][1])},
        solver_seconds=round(sum((r["solver"] or 0) for r in all_res.values()), 2),
        functions_under_contract=CFG.get("functions", []),
        repo_functions_with_obligations={k: v[0] for k, v in sorted(funcs.items())},
        verus={k: v for k, v in vout.items() if k != "failed"},
        bounded_native=bounded, bounded_native_rule="contract asserted on the real code for pseudo-random inputs drawn from VERIF_SEED; cases = inputs that met the precondition; never counted as proved",
        undecided=[dict(obligation=a, reason=b) for a, b in undecided], stand_ins=stand_in, notes=notes)
    ev = dict(property=PID, tier=TIER, seed=SEED, level=CFG["level"], coverage=proof,
              assumptions=config.ASSUMPTIONS + CFG.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(violations))
    with open(os.path.join(ROOT, "evidence", f"{PID}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{PID} {TIER}: {discharged}/{obligations} obligations discharged in {len(all_res)} harnesses"
          + (f" + {vout.get('discharged', 0)} Verus" if vout else "")
          + f", {sum(b['cases'] for b in bounded.values())} bounded cases, {len(undecided)} undecided, {ev['wall_s']} s")
    for a, b in undecided:
        print(f"  undecided: {a}: {b}")
    if violations:
        violations.sort(key=lambda v: (not v["found"], v["kind"] == "bounded"))
        for v in violations:
            print(f"  {v['kind']}: {v['harness']} -> {v['path']}")
        v = violations[0]
        print(f"VIOLATION property={PID} replay={v['path']}" + ("" if v["found"] else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
