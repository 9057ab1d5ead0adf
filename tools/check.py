#!/usr/bin/env python3
"""Decides one property with Kani (CBMC) over the harness module of that property.

    tools/check.py C01 [--tier quick|thorough]

exit 0  the property held on everything explored: no harness has a counterexample that the real
        code reproduces, and at least two thirds of the harnesses were decided.  Harnesses the
        solver could not decide in time, or whose counterexample the native build and Miri both
        contradict (an imprecision of the encoding), are printed and recorded as UNDECIDED; on
        the unchanged tree there are none.
exit 1  a counterexample was found and reproduced against the native build (VIOLATION line)
exit 2  anything else: build failure, too little decided
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
NATIVE = os.path.join(VERIF, "native")
WORK = os.path.join(VERIF, "work")
STABLE = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()
KNOWN = os.path.join(VERIF, "known_findings.txt")

# Seconds for the symbolic part and for one harness, per tier.
LIMITS = {"quick": (560, 300), "thorough": (6 * 3600, 3600)}
REPLAY_TIMEOUT = 20


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR:", msg)
    sys.exit(2)


def env(toolchain=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUST_BACKTRACE"] = "0"
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    return e


def run(cmd, cwd, timeout, toolchain=None, out=None):
    """Runs cmd in its own process group; returns (exit code or None on timeout, output)."""
    f = open(out, "w") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=env(toolchain), stdout=f, stderr=subprocess.STDOUT, start_new_session=True, text=True)
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        rc = None
    if out:
        f.close()
        o = open(out).read()
    return rc, o or ""


def sources_hash():
    """Identity of everything the encoding is made from."""
    h = hashlib.sha256()
    roots = [REPO, HARNESS, NATIVE, os.path.join(VERIF, "stubs")]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "work"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".md")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def target_dirs():
    """Build output directories, tied to the exact sources, so that nothing stale is reused."""
    tag = sources_hash()
    os.makedirs(WORK, exist_ok=True)
    for x in os.listdir(WORK):
        if x.startswith("t-") and x != "t-" + tag:
            shutil.rmtree(os.path.join(WORK, x), ignore_errors=True)
    base = os.path.join(WORK, "t-" + tag)
    return os.path.join(base, "kani"), os.path.join(base, "native"), tag


def kani_cmd(features, target, *extra):
    return ["cargo", "kani", "--features", features, "--target-dir", target, "-Z", "unstable-options", *extra]


UNWIND = "unwinding assertion"


def short(fn):
    fn = re.sub(r"\s+", " ", fn)
    return fn if len(fn) < 160 else fn[:157] + "..."


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.mod = pid.lower()
        self.features = self.mod + (",thorough" if tier == "thorough" else "")
        self.kdir, self.ndir, self.tag = target_dirs()
        self.limit, self.hlimit = LIMITS[tier]
        self.notes = []
        self.witnesses = []
        self.violations = []
        self.errors = []
        self.retries = 0
        self.undecided = []

    # -- native build -------------------------------------------------------------------------
    def build_native(self):
        bins = {}
        for prof, flag in (("dev", []), ("release", ["--release"])):
            rc, o = run(["cargo", "build", "--offline", "--bin", "replay", "--features", self.features, "--target-dir", self.ndir, *flag], NATIVE, 400, STABLE)
            if rc != 0:
                return None, o
            bins[prof] = os.path.join(self.ndir, "debug" if prof == "dev" else "release", "replay")
        return bins, ""

    # -- symbolic part ------------------------------------------------------------------------
    def kani(self):
        js = os.path.join(WORK, f"{self.mod}-{self.tier}.json")
        log = os.path.join(WORK, f"{self.mod}-{self.tier}.log")
        for f in (js, log):
            if os.path.exists(f):
                os.remove(f)
        jobs = str(os.cpu_count() or 4)
        rc, o = run(kani_cmd(self.features, self.kdir, "--only-codegen"), HARNESS, 500)
        if rc != 0:
            i = o.find("error")
            say(o[i if i >= 0 else -3000:][:6000])
            die("the harnesses do not compile against the current tree")
        self.t_codegen = time.time() - T0
        return self.symbolic(log, js, jobs, self.limit - self.t_codegen)

    def symbolic(self, log, js, jobs, timeout, extra=()):
        rc, o = run(kani_cmd(self.features, self.kdir, "-j", jobs, "--output-format=terse", "--harness-timeout", f"{self.hlimit}s", "--export-json", js, *extra), HARNESS, timeout, out=log)
        if rc is None or not os.path.exists(js):
            return self.partial(o)
        d = json.load(open(js))
        res = {}
        pd = {x["harness_id"]: x["property_details"] for x in d["property_details"]}
        cb = {x["harness_id"]: x.get("cbmc_stats") or {} for x in d["cbmc"]}
        er = {x["harness_id"]: x for x in d["error_details"]}
        for r in d["verification_results"]["results"]:
            h = r["harness_id"]
            fails, covers, fns = [], [], set()
            for c in r.get("checks") or []:
                if c["category"] == "cover":
                    covers.append((c["status"], c["description"]))
                elif c["status"] == "Failure":
                    fails.append(c)
                fn = c["function"]
                if "fixed_map::" in fn or "::_::" in fn:
                    fns.add(fn)
            res[h] = dict(status=r["status"], ms=r["duration_ms"], fails=fails, covers=covers, fns=fns, pd=pd.get(h, {}), cbmc=cb.get(h, {}), err=er.get(h, {}))
        self.tools = d.get("tools", {})
        return res

    def partial(self, o):
        """The run as a whole ran out of time: keep what the log holds."""
        self.tools = {}
        res, cur, t = {}, {}, None
        for line in o.splitlines():
            m = re.match(r"Thread (\d+): Checking harness (\S+)\.\.\.", line)
            if m:
                cur[m.group(1)] = m.group(2)
                res[m.group(2)] = dict(status="Unfinished", ms=0, fails=[], covers=[], fns=set(), pd={}, cbmc={}, err={})
                continue
            m = re.match(r"Thread (\d+):\s*$", line)
            if m:
                t = m.group(1)
            r = res.get(cur.get(t))
            if r is None:
                continue
            m = re.match(r"Failed Checks: (.*)", line)
            if m:
                r["fails"].append(dict(description=m.group(1).strip('"')))
            m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", line)
            if m:
                r["covers"] = [("SATISFIED" if m.group(1) == m.group(2) else "UNSATISFIABLE", "end of harness reached")]
            m = re.match(r" \*\* \d+ of (\d+) failed", line)
            if m:
                r["pd"] = dict(total_properties=int(m.group(1)), passed=int(m.group(1)))
            m = re.match(r"VERIFICATION:- (.*)", line)
            if m:
                r["status"] = "Success" if m.group(1).startswith("SUCCESS") else "Failure"
            m = re.match(r"Verification Time: ([\d.]+)s", line)
            if m:
                r["ms"] = int(float(m.group(1)) * 1000)
                t = None
        self.notes.append("the symbolic run did not finish within its time")
        return res

    def playback(self, h, extra=()):
        """Concrete draws for every failed check (and the witness) of one harness."""
        left = max(45, min(self.hlimit * 1.5, self.left() - 30))
        rc, o = run(kani_cmd(self.features, self.kdir, "-Z", "concrete-playback", "--concrete-playback=print", "--output-format=terse", "--harness", h, "--exact", "--harness-timeout", f"{self.hlimit}s", *extra), HARNESS, left)
        tests = []
        for part in o.split("Concrete playback unit test for")[1:]:
            m = re.search(r'Check for `(\w+)`: "(.*)"', part)
            body = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", part, re.S)
            if not body:
                continue
            vals = [[int(x) for x in re.findall(r"\d+", v)] for v in re.findall(r"^\s*vec!\[(.*?)\],", body.group(1), re.M)]
            tests.append((m.group(1) if m else "?", m.group(2) if m else "?", vals))
        return tests, o

    # -- replay -------------------------------------------------------------------------------
    def write_input(self, h, kind, desc, vals, n):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{h.replace('::', '-')}-{n}.txt")
        with open(p, "w") as f:
            f.write(f"# property={self.pid} harness={h} features={self.features}\n# {kind}: {desc}\n")
            f.write(f"# replay: python3 {VERIF}/tools/replay.py {p}\n")
            for v in vals:
                f.write(bytes(v).hex() + "\n")
        return p

    def native(self, h, path):
        """Runs the input on the dev and the release build; returns (verdict, text)."""
        verdicts = []
        for prof, b in self.bins.items():
            rc, o = run([b, h, path], WORK, REPLAY_TIMEOUT, STABLE)
            tail = " | ".join(o.strip().splitlines()[:4])[:400]
            if rc is None:
                verdicts.append(("broken", f"{prof}: does not terminate within {REPLAY_TIMEOUT} s"))
            elif rc == 0:
                verdicts.append(("ok", f"{prof}: {tail}"))
            elif rc in (77, 78, 79):
                verdicts.append(("misfit", f"{prof}: {tail}"))
            else:
                verdicts.append(("broken", f"{prof}: exit {rc}: {tail}"))
        text = "; ".join(t for _, t in verdicts)
        if any(v == "broken" for v, _ in verdicts):
            return "broken", text
        if any(v == "misfit" for v, _ in verdicts):
            return "misfit", text
        return "ok", text

    def miri(self, h, path):
        mdir = os.path.join(os.path.dirname(self.ndir), "miri")
        e_cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--features", self.features, "--target-dir", mdir, "--bin", "replay", "--", h, path]
        os.environ["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        rc, o = run(e_cmd, NATIVE, max(40, min(300, self.left())))
        m = re.search(r"error: Undefined Behavior: (.*)", o)
        if m:
            return "broken", "miri: " + m.group(0)
        if rc == 0:
            return "ok", "miri: clean"
        if "panicked" in o:
            return "broken", "miri: " + re.search(r".*panicked.*\n?.*", o).group(0)
        return "misfit", "miri: " + o.strip()[-300:]

    def confirm(self, h, fails, extra=()):
        """Replays every counterexample of a failing harness.  True if one reproduced."""
        tests, o = self.playback(h, extra)
        tests = [t for t in tests if t[0] != "cover"]
        if not tests:
            self.undecided.append(f"{h}: failed, but no counterexample could be extracted")
            return False
        last = ""
        for n, (kind, desc, vals) in enumerate(tests[:6]):
            p = self.write_input(h, kind, desc, vals, n)
            v, text = self.native(h, p)
            if v != "broken" and kind not in ("assertion",):
                v, text = self.miri(h, p)
            if v == "broken":
                self.violations.append(dict(harness=h, check=desc, replay=p, native=text))
                return True
            last = f"{desc}: {v}: {text}"
        # Memory errors that no native run shows are looked for by the interpreter.
        for n, (kind, desc, vals) in enumerate(tests[:2]):
            p = self.write_input(h, kind, desc, vals, n)
            v, text = self.miri(h, p)
            if v == "broken":
                self.violations.append(dict(harness=h, check=desc, replay=p, native=text))
                return True
        self.undecided.append(f"{h}: the real code contradicts the counterexample ({last})")
        return False

    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"finding: property=(\S+) harness=(\S+) check=(.*)", line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    # -- the whole check ----------------------------------------------------------------------
    def go(self):
        pool = concurrent.futures.ThreadPoolExecutor(2)
        nat = pool.submit(self.build_native)
        res = self.kani()
        self.bins, o = nat.result()
        if self.bins is None:
            say(o[-3000:])
            die("the native replay build failed")
        rc, o = run([self.bins["dev"], "--list"], WORK, 20, STABLE)
        expected = set(o.split())
        ran = set(res)
        if not expected or not ran <= expected or (ran != expected and not self.notes):
            self.errors.append(f"harnesses expected but not run: {sorted(expected - ran)[:5]}, unexpected: {sorted(ran - expected)[:5]}")
        for h in sorted(expected - ran):
            self.undecided.append(f"{h}: not started in time")
        self.expected = expected
        known = self.known()
        bad = []
        for h, r in sorted(res.items()):
            if r["status"] == "Success":
                unsat = [d for s, d in r["covers"] if s.lower() not in ("satisfied",)]
                if not r["covers"] or unsat:
                    self.undecided.append(f"{h}: vacuous, witness not reachable: {unsat[:2]}")
                    r["status"] = "Vacuous"
                continue
            r_fail = [c for c in r["fails"] if (h, c["description"]) not in known]
            for c in r["fails"]:
                if (h, c["description"]) in known:
                    say(f"KNOWN-FINDING: property={self.pid} {h}: {c['description']}")
            if r["fails"] and not r_fail:
                continue
            real = [c for c in r_fail if UNWIND not in c["description"]]
            if not r["fails"]:
                self.undecided.append(f"{h}: {r['err'].get('exit_status') or r['err'].get('error_type') or r['status']}")
            else:
                bad.append((0 if real else 1, r["ms"], h, real or r_fail))
        bad.sort(key=lambda x: x[:3])
        tried = 0
        for prio, ms, h, fails in bad:
            if self.violations:
                break
            if prio == 1:
                continue
            if tried >= 8 or self.left() < 60:
                self.undecided.append(f"{h}: failed, counterexample not replayed")
                continue
            say(f"{h}: FAILED: " + "; ".join(sorted({c['description'] for c in fails}))[:300])
            tried += 1
            self.confirm(h, fails)
        if not self.violations:
            # Only the unwinding bound was too small for the current code: look deeper.
            deeper = [x for x in bad if x[0] == 1]
            if deeper:
                say(f"{len(deeper)} harnesses need a larger unwinding bound; retrying")
                self.deeper([x[2] for x in deeper], res)
        self.finish(res)

    def left(self):
        return LIMITS[self.tier][0] + 280 - (time.time() - T0)

    def deeper(self, hs, res):
        """Raises the unwinding bound of harnesses for which it was too small."""
        names = list(hs)
        for k in (8, 14, 22):
            if not names or self.left() < 60 or self.violations:
                break
            js = os.path.join(WORK, f"{self.mod}-{self.tier}-u{k}.json")
            log = os.path.join(WORK, f"{self.mod}-{self.tier}-u{k}.log")
            for f in (js, log):
                if os.path.exists(f):
                    os.remove(f)
            sel = [a for h in names for a in ("--harness", h)]
            self.retries += len(names)
            got = self.symbolic(log, js, str(os.cpu_count() or 4), self.left() - 40, (*sel, "--exact", "--unwind", str(k)))
            rest = []
            for h in names:
                r = got.get(h)
                if r is None or r["status"] == "Unfinished":
                    continue
                fails = [c["description"] for c in r["fails"]]
                if r["status"] == "Success" and r["covers"] and all(c[0].lower() == "satisfied" for c in r["covers"]):
                    r["note"] = f"unwinding bound raised to {k}"
                    res[h] = r
                elif any(UNWIND not in f for f in fails):
                    if not self.violations and self.left() > 60:
                        self.confirm(h, None, ("--unwind", str(k)))
                elif fails:
                    rest.append(h)
            names = rest
        # A loop that never ends meets no bound: replay what the solver says about a few.
        for h in names[:3]:
            if not self.violations and self.left() > 60:
                self.confirm(h, None, ("--unwind", "8"))
        for h in hs:
            if res[h]["status"] != "Success" and not any(u.startswith(h + ":") for u in self.undecided):
                self.undecided.append(f"{h}: no verdict within the raised unwinding bounds")

    def witness(self, res):
        """Cross-checks the encoding: the solver's witness of the cheapest harnesses runs through
        natively, on the real build with the real dependencies."""
        cheap = sorted((r["ms"], h) for h, r in res.items() if r["status"] == "Success" and r["covers"])
        for _, h in cheap[: 2 if self.tier == "quick" else 6]:
            tests, o = self.playback(h)
            for n, (kind, desc, vals) in enumerate(t for t in tests if t[0] == "cover"):
                p = self.write_input(h, "witness", desc, vals, f"w{n}")
                v, text = self.native(h, p)
                self.witnesses.append(dict(harness=h, witness=desc, draws=[bytes(x).hex() for x in vals], native=v))
                if v == "broken":
                    self.violations.append(dict(harness=h, check="solver witness fails on the real build", replay=p, native=text))
                elif v == "misfit":
                    self.errors.append(f"{h}: witness does not fit: {text}")

    def finish(self, res):
        if not self.violations and not self.errors and self.left() > 120:
            self.witness(res)
        ok = [h for h, r in res.items() if r["status"] == "Success"]
        if 3 * len(ok) < 2 * len(self.expected) and not self.violations:
            self.errors.append(f"only {len(ok)} of {len(self.expected)} harnesses decided")
        fns = sorted({f for r in res.values() for f in r["fns"]})
        sm = lambda k: sum(float(r["cbmc"].get(k) or 0) for r in res.values())
        checks = sum(int(r["pd"].get("total_properties") or 0) for r in res.values())
        passed = sum(int(r["pd"].get("passed") or 0) + int(r["pd"].get("unreachable") or 0) for r in res.values())
        meta = info(self.pid)
        cov = dict(
            states=int(sm("size_program_expression")),
            transitions=int(sm("size_program_expression") - sm("slicing_removed_assignments")),
            traces_validated_against_impl=len(self.witnesses) + len(self.violations),
            samples=(self.witnesses or self.violations or [dict(harness=h) for h in ok[:2]])[:4],
            explanation="Bounded symbolic model checking of the compiled Rust code (Kani, CBMC, CaDiCaL). states = steps of the symbolic unrolling, each standing for every valuation of the inputs; transitions = those left after slicing, over which the solver decided; traces = solver-produced inputs run on the native build.",
            harnesses_run=len(res), harnesses_verified=len(ok), undecided=self.undecided, notes=self.notes,
            assertions_generated=checks, assertions_discharged=passed,
            vccs=int(sm("vccs_generated")), vccs_to_solver=int(sm("vccs_remaining")),
            symbolic_execution_s=round(sm("runtime_symex_s"), 2), solver_s=round(sm("runtime_decision_procedure_s"), 2),
            functions_encoded=len(fns), functions=[short(f) for f in fns][:400],
            bounds=meta["bounds"], outside=meta["outside"], harnesses={h: dict(status=r["status"], ms=r["ms"], ssa_steps=r["cbmc"].get("size_program_expression")) for h, r in sorted(res.items())},
            unwinding_retries=self.retries, tools=self.tools, errors=self.errors, source_id=self.tag,
        )
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov, assumptions=meta["assumptions"], wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in self.violations:
            say(f"{v['harness']}: {v['check']}\n  native: {v['native']}")
            say(f"VIOLATION property={self.pid} replay={v['replay']}")
        for u in self.undecided:
            say("UNDECIDED:", u)
        for e in self.notes:
            say("NOTE:", e)
        for e in self.errors:
            say("ERROR:", e)
        say(f"{self.pid} [{self.tier}]: {len(ok)}/{len(res)} harnesses verified, {checks} assertions, {sm('runtime_decision_procedure_s'):.1f} s solver, {len(fns)} functions encoded, {len(self.witnesses)} witnesses replayed, {time.time() - T0:.0f} s")
        sys.stdout.flush()
        sys.exit(1 if self.violations else 2 if self.errors else 0)


def info(pid):
    d = json.load(open(os.path.join(VERIF, "tools", "claims.json")))
    x = dict(d["common"])
    y = d.get(pid, {})
    return dict(bounds=y.get("bounds", []) + x["bounds"], outside=y.get("outside", []) + x["outside"], assumptions=y.get("assumptions", []) + x["assumptions"])


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    try:
        Check(a.pid, a.tier if a.tier in LIMITS else "quick").go()
    except SystemExit:
        raise
    except Exception as e:  # never mistaken for a verdict
        import traceback
        traceback.print_exc()
        die(repr(e))
