#!/usr/bin/env python3
"""Solver-based check of one property of libopenraw.

    check.py ID [--tier quick|thorough] [--only HARNESS] [--keep]

Builds /repo's current working tree with the verification hooks on, runs every
Kani harness of the property (CBMC symbolic execution + SAT), replays each
counterexample natively against the real build, and writes evidence/ID.json.

Exit 0: every harness verified within its bounds, every reachability witness
satisfiable. Exit 1 with a VIOLATION line: a counterexample that reproduces
natively. Exit 2: no answer (build error, timeout, non reproducing
counterexample, vacuous harness).
"""
import argparse
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402

T0 = time.time()
TOTAL = {"quick": 840, "thorough": 3 * 3600}
HARNESS_TIMEOUT = {"quick": int(os.environ.get("HT", "420")), "thorough": 3600}
NATIVE_TOOLCHAIN = "stable"
EXIT_ASSUME = 40
KANI_COMMON = ["-Z", "unstable-options", "-Z", "stubbing",
               "--no-assertion-reach-checks", "--no-memory-safety-checks", "--output-format", "terse"]


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def left(tier):
    return max(5, TOTAL[tier] - (time.time() - T0))


class NoAnswer(Exception):
    pass


def rustflags(prop, native):
    flags = ["-Awarnings", "--cfg", "libopenraw_verif"]
    # The model only hooks replace parts of the standard library. The native
    # build has the real ones.
    for g in prop["hooks"] + ([] if native else prop.get("model_hooks", [])):
        flags += ["--cfg", f'libopenraw_verif="{g}"']
    return " ".join(flags)


def env_for(prop, native=False):
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    if native:
        env["RUSTUP_TOOLCHAIN"] = NATIVE_TOOLCHAIN
    env["RUSTFLAGS"] = rustflags(prop, native)
    return env


def limit_memory():
    # One solver must not take the memory of the others.
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


def run(cmd, env, timeout, cwd=HARNESS):
    """Run in a process group of its own, killed as a whole on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True,
                         text=True, errors="replace", preexec_fn=limit_memory)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def features(prop):
    return ",".join([prop["feature"]] + prop.get("features", []))


def kani(prop, target, tier, harnesses, extra, jobs, timeout, tag):
    outjson = os.path.join(target, f"result-{tag}.json")
    if os.path.exists(outjson):
        os.unlink(outjson)
    cmd = ["cargo", "kani", "--target-dir", target, "--features", features(prop)]
    cmd += KANI_COMMON + prop.get("kani_args", [])
    cmd += ["--harness-timeout", f"{int(min(HARNESS_TIMEOUT[tier], timeout))}s"]
    if "--only-codegen" not in extra:
        cmd += ["--export-json", outjson]
    for h in harnesses:
        cmd += ["--harness", h]
    if jobs:
        cmd += ["-j", str(jobs)]
    cmd += extra
    if prop.get("array"):
        # Constants are propagated through arrays of up to this size.
        cmd += ["--cbmc-args", "--max-field-sensitivity-array-size", str(prop["array"])]
    rc, out = run(cmd, env_for(prop), timeout)
    data = None
    if os.path.exists(outjson):
        try:
            with open(outjson) as f:
                data = json.load(f)
        except ValueError:
            data = None
    return rc, out, data


def results_of(data):
    res = {}
    stats = {c["harness_id"]: c for c in data.get("cbmc", [])}
    for r in data["verification_results"]["results"]:
        name = r["harness_id"].split("::")[-1]
        failed, unwind, unsupported, covers, uncovered = [], [], [], 0, []
        for c in r.get("checks", []):
            st, cat = c["status"].lower(), c.get("category", "")
            desc = c.get("description", "")
            if cat == "cover" or st in ("satisfied", "unsatisfiable"):
                covers += 1
                if st != "satisfied":
                    uncovered.append(c)
                continue
            if st == "failure":
                if "unwinding assertion" in desc or cat == "unwind":
                    unwind.append(c)
                elif cat == "unsupported_construct" or "not currently supported" in desc:
                    unsupported.append(c)
                else:
                    failed.append(c)
        st = stats.get(r["harness_id"], {}).get("cbmc_stats") or {}
        res[name] = dict(
            status=r["status"].lower(), ms=r["duration_ms"],
            n=len(r.get("checks", [])), failed=failed, unwind=unwind,
            unsupported=unsupported, covers=covers, uncovered=uncovered,
            passed=sum(1 for c in r.get("checks", []) if c["status"].lower() in ("success", "unreachable")),
            stats=st)
    return res


def describe(c):
    loc = c.get("location") or {}
    return f'{c.get("description", "?")} at {loc.get("file", "?")}:{loc.get("line", "?")} in {c.get("function", "?")}'


class Native:
    """The replay binary, built from the same tree with the stock toolchain."""

    def __init__(self, prop, target):
        self.prop, self.target, self.bins, self.err = prop, target, {}, {}
        self.lock = threading.Lock()

    def build(self, profile):
        with self.lock:
            if profile in self.bins:
                return self.bins[profile]
            cmd = ["cargo", "build", "--bin", "replay", "--target-dir",
                   os.path.join(self.target, "native"), "--features", features(self.prop)]
            if profile == "release":
                cmd.append("--release")
            rc, out = run(cmd, env_for(self.prop, True), 600)
            if rc != 0:
                raise NoAnswer(f"native {profile} build failed:\n" + out[-3000:])
            d = "release" if profile == "release" else "debug"
            self.bins[profile] = os.path.join(self.target, "native", d, "replay")
            return self.bins[profile]

    def replay(self, harness, path, profile, perturb=None, timeout=20):
        """('ok'|'fail'|'assume'|'hang'|'crash', output)"""
        env = dict(os.environ, RUST_BACKTRACE="0")
        if perturb:
            env["MALLOC_PERTURB_"] = perturb
        cmd = ["bash", "-c", 'ulimit -v 8000000; exec "$@"', "replay",
               self.build(profile), harness, path]
        rc, out = run(cmd, env, timeout, cwd="/")
        if rc is None:
            return "hang", out
        if rc == 0:
            return "ok", out
        if rc == EXIT_ASSUME:
            return "assume", out
        if rc == 101:
            return "fail", out
        return "crash", out + f"\n(status {rc})"

    def confirm(self, harness, path):
        for profile in ("debug", "release"):
            for perturb in (None, "85", "170"):
                st, out = self.replay(harness, path, profile, perturb)
                if st in ("fail", "crash", "hang"):
                    return f"{profile}: {st}: {out.strip()[-600:]}"
                if st == "assume":
                    break
        return None

    def sample(self, harness, rng, n):
        """Run the harness on concrete inputs; returns how many met the
        assumptions, and the first disagreement."""
        b = self.build("debug")
        rc, out = run([b, "--sample", harness, str(rng.getrandbits(63)), str(n)],
                      dict(os.environ, RUST_BACKTRACE="0"), 120, cwd="/")
        m = re.search(r"^SAMPLED (\d+) of (\d+)", out, re.M)
        if rc != 0 or not m:
            return 0, out.strip()[-800:] or f"status {rc}"
        return int(m.group(1)), None


def playback(prop, target, tier, harness, timeout, extra=()):
    """Concrete inputs of the failing checks of a harness."""
    rc, out, _ = kani(prop, target, tier, [harness],
                      ["-Z", "concrete-playback", "--concrete-playback", "print"] + list(extra),
                      None, timeout, "pb-" + harness)
    vecs = []
    for blk in re.split(r"Concrete playback unit test for", out)[1:]:
        m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*\n\s*kani::concrete_playback_run",
                      blk, re.S)
        if not m:
            continue
        head = blk[:m.start()]
        if re.search(r"Check for `?cover", head):
            continue
        body = re.sub(r"//.*", "", m.group(1))
        data = []
        for v in re.findall(r"vec!\[([^\]]*)\]", body):
            data += [int(x) for x in v.replace("\n", " ").split(",") if x.strip()]
        if data not in vecs:
            vecs.append(data)
    return vecs, out


def load_known(pid):
    known = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e["property"] == pid:
                    known.append(e)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid, prop = a.id, PROPS[a.id]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    target = os.path.join(ROOT, "target", pid)
    os.makedirs(target, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage={}, wall_s=0.0)
    code = 2
    try:
        code = check(pid, prop, tier, seed, target, ev, a.only)
    except NoAnswer as e:
        log("NO ANSWER:", e)
        ev["coverage"].setdefault("states", 0)
        ev["coverage"].setdefault("transitions", 0)
        ev["coverage"].setdefault("traces_validated_against_impl", 0)
        ev["coverage"].setdefault("samples", [])
        ev["coverage"]["no_answer"] = str(e)[:2000]
    ev["wall_s"] = round(time.time() - T0, 1)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if not a.keep and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(target, ignore_errors=True)
    log("exit", code)
    sys.exit(code)


def check(pid, prop, tier, seed, target, ev, only):
    rng = random.Random(seed)
    low = pid.lower()
    prefixes = [f"{low}_"] + ([f"t{low[1:]}_"] if tier == "thorough" else [])
    known = {k["harness"]: k for k in load_known(pid)}
    want = [only] if only else prefixes
    jobs = prop.get("jobs", 8)

    native = Native(prop, target)
    nerr = []

    def prebuild():
        try:
            native.build("debug")
        except Exception as e:  # noqa: BLE001
            nerr.append(str(e))

    # The Kani build goes first, then the native build overlaps the solving.
    t = time.time()
    rc, out, _ = kani(prop, target, tier, want, ["--only-codegen"], None,
                      min(600, left(tier)), "build")
    if rc != 0:
        raise NoAnswer("Kani build failed:\n" + out[-4000:])
    log(f"encoded from /repo in {time.time() - t:.1f}s")
    th = threading.Thread(target=prebuild)
    th.start()
    rc, out, data = kani(prop, target, tier, want, [], jobs, left(tier), "main")
    if data is None:
        th.join()
        raise NoAnswer(("Kani timed out" if rc is None else "Kani gave no result") + "\n" + out[-4000:])
    res = results_of(data)
    if not res:
        raise NoAnswer("no harness ran")
    th.join()
    if nerr:
        raise NoAnswer(nerr[0])

    notes, violations, problems, known_hit = [], [], [], []
    # Those that were fast to decide are fast to reproduce.
    for name, r in sorted(res.items(), key=lambda x: x[1]["ms"]):
        extra = []
        tries = 0
        while r["unwind"] and not r["failed"] and tries < 2:
            # The loops of this tree run longer than the harness expects.
            tries += 1
            n = (40, 100)[tries - 1]
            extra = ["--unwind", str(n)]
            log(f"{name}: unwinding bound too small, again with {n}")
            _, o2, d2 = kani(prop, target, tier, [name], extra, None, left(tier), f"uw-{name}")
            r2 = results_of(d2).get(name) if d2 else None
            if not r2:
                break
            res[name] = r = r2
            notes.append(f"{name}: decided with unwind {n}")
        log(f"{name}: {r['status']} {r['n']} checks, {len(r['failed'])} failed, "
            f"{r['covers'] - len(r['uncovered'])}/{r['covers']} witnesses, {r['ms'] / 1000:.1f}s")
        if r["failed"]:
            for c in r["failed"][:6]:
                log("   failed:", describe(c))
            if violations and name not in known:
                continue
            vecs, pout = playback(prop, target, tier, name, left(tier), extra)
            rep = None
            for i, v in enumerate(vecs[:12]):
                d = os.path.join(ROOT, "replays")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, f"{pid}-{name}-{i}.hex")
                with open(path, "w") as f:
                    f.write(" ".join(f"{b:02x}" for b in v) + "\n")
                how = native.confirm(name, path)
                if how:
                    rep = (path, how)
                    break
                os.unlink(path)
            if rep and name in known:
                known_hit.append(name)
                print(f"KNOWN-FINDING: property={pid} {known[name]['what']}", flush=True)
            elif rep:
                with open(rep[0] + ".txt", "w") as f:
                    f.write(f"property {pid}, harness {name}\n")
                    f.write("".join(describe(c) + "\n" for c in r["failed"]))
                    f.write(rep[1] + "\n")
                    f.write(f"replay: check.py builds harness/ (bin replay) and runs: replay {name} {rep[0]}\n")
                log("   reproduced:", rep[1])
                violations.append((name, rep[0]))
                print(f"VIOLATION property={pid} replay={rep[0]}", flush=True)
            else:
                problems.append(f"{name}: counterexample does not reproduce "
                                f"({len(vecs)} inputs): " + "; ".join(describe(c) for c in r["failed"][:3]))
                if not vecs:
                    log(pout[-1500:])
        elif r["unwind"] or r["unsupported"] or r["status"] != "success":
            problems.append(f"{name}: undecided ({r['status']}): " +
                            "; ".join(describe(c) for c in (r["unwind"] + r["unsupported"])[:3]))
        elif not r["covers"] or r["uncovered"]:
            problems.append(f"{name}: reachability witness not satisfied: " +
                            "; ".join(describe(c) for c in r["uncovered"][:3]))

    # The same harnesses on concrete inputs of the real build: a harness that
    # misrepresents the code would disagree here.
    traces, samples = 0, []
    if not violations:
        for name in sorted(res):
            if name in known:
                continue
            n, err = native.sample(name, rng, prop.get("samples", 200))
            traces += n
            if err:
                problems.append(f"{name}: model and build disagree on a concrete run: {err}")
    for name, r in sorted(res.items()):
        samples.append(dict(harness=name, status=r["status"], checks=r["n"],
                            witnesses=r["covers"] - len(r["uncovered"]), seconds=r["ms"] / 1000,
                            vccs=r["stats"].get("vccs_generated"),
                            program_steps=r["stats"].get("size_program_expression"),
                            solver_s=r["stats"].get("runtime_decision_procedure_s")))
    tot = lambda k: sum(int(r["stats"].get(k) or 0) for r in res.values())  # noqa: E731
    ev["coverage"] = dict(
        states=tot("size_program_expression"), transitions=tot("vccs_generated"),
        traces_validated_against_impl=traces, samples=samples,
        obligations=sum(r["n"] - r["covers"] for r in res.values()),
        discharged=sum(r["passed"] for r in res.values()),
        harnesses=len(res),
        witnesses=sum(r["covers"] - len(r["uncovered"]) for r in res.values()),
        vccs_sent_to_solver=tot("vccs_remaining"),
        solver_s=round(sum(float(r["stats"].get("runtime_decision_procedure_s") or 0) for r in res.values()), 2),
        harness_s=round(sum(r["ms"] for r in res.values()) / 1000, 1),
        functions_encoded=prop["functions"], bounds=prop["bounds"],
        explanation="states: steps of the symbolic program expressions; transitions: verification "
                    "conditions generated; traces: concrete runs of the same harnesses against the "
                    "native build that met the assumptions and agreed.",
        engine="Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL", notes=notes, known_findings=known_hit)
    ev["assumptions"] = prop.get("assumptions", [])
    ev["violations"] = len(violations)
    if violations:
        return 1
    if problems:
        raise NoAnswer("; ".join(problems))
    return 0


if __name__ == "__main__":
    main()
