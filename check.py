#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled IR.

  check.py PROPERTY [--tier quick|thorough] [--entries a,b] [--keep]
  check.py --setup

1. builds the symbolic executor (engine/) and the harness crate (harness/)
   against /repo's current working tree, keeping the LLVM bitcode of the whole
   program (harness + viadkim + its dependencies + std);
2. runs the executor over that bitcode for the property's entry functions: all
   inputs are symbolic, every branch and every assertion is decided by the SMT
   solver;
3. replays every counterexample, and a sample of the explored paths, natively
   against the real code, comparing all observations;
4. writes evidence/<property>.json.

Exit status: 0 held on everything explored, 1 violation, 2 no answer.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["RUSTFLAGS"] = '-C save-temps -C embed-bitcode=yes --cfg curve25519_dalek_backend="serial" -A warnings'
ENV["CARGO_NET_OFFLINE"] = "true"
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def tree(d, skip=()):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git") and os.path.join(r, x) not in skip]
        out += [os.path.join(r, f) for f in fs]
    return out


def build_engine():
    src = tree(os.path.join(VERIF, "engine"))
    stamp = os.path.join(BUILD, "sx.stamp")
    exe = os.path.join(BUILD, "sx")
    d = digest(src)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["bash", os.path.join(VERIF, "engine/build.sh"), exe], env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoAnswer("engine build failed:\n" + r.stdout[-3000:])
    open(stamp, "w").write(d)
    return exe


def repo_sources():
    return tree(os.path.join(REPO, "src")) + [os.path.join(REPO, f) for f in ("Cargo.toml",)]


def build_harness(features=()):
    """Returns (native executable, bitcode)."""
    name = "t-" + ("-".join(features) or "default")
    target = os.path.join(BUILD, name)
    stamp = os.path.join(BUILD, name + ".stamp")
    d = digest(repo_sources() + tree(os.path.join(VERIF, "harness")))
    if not (os.path.exists(stamp) and open(stamp).read() == d):
        # never trust modification times: make cargo recompile what may have changed
        for p in glob.glob(target + "/release/.fingerprint/viadkim-*") + \
                glob.glob(target + "/release/.fingerprint/harness-*"):
            shutil.rmtree(p)
        for p in glob.glob(target + "/release/deps/harness-*") + glob.glob(target + "/release/deps/viadkim-*"):
            os.remove(p)
        if os.path.exists(stamp):
            os.remove(stamp)
    cmd = ["cargo", "build", "--release", "--offline", "--target-dir", target]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoAnswer("harness does not build against this tree:\n" + r.stdout[-4000:])
    open(stamp, "w").write(d)
    exe = os.path.join(target, "release/harness")
    ino = os.stat(exe).st_ino
    for p in glob.glob(target + "/release/deps/harness-*"):
        if "." not in os.path.basename(p) and os.stat(p).st_ino == ino:
            bc = glob.glob(p + ".*.lto.after-restriction.bc")
            if len(bc) == 1:
                return exe, bc[0]
    raise NoAnswer("bitcode not found")


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), text=True, stdout=subprocess.PIPE)
        out = r.stdout.split("\n")
    except OSError:
        out = names
    return [re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in out]


def replay(exe, rec, path, tier, timeout=60):
    """Runs one model natively; returns (outcome lines, return code)."""
    with open(path, "w") as f:
        f.write("# %s %s %s\n" % (exe, rec["entry"], path))
        f.write("\n".join(rec["inputs"]) + "\n")
    env = dict(ENV, HARNESS_TIER=str(tier), RUST_BACKTRACE="0")
    try:
        r = subprocess.run([exe, rec["entry"], path], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [], "timeout", ""
    return r.stdout.decode("utf8", "replace").split("\n"), r.returncode, r.stderr.decode("utf8", "replace")


def reproduces(label, lines, rc):
    if label.startswith("panic"):
        return rc not in (0, 3, 4, 5, "timeout")
    if label.startswith("nontermination"):
        return rc == "timeout"
    return ("CHECK-FAIL " + label) in lines


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) label=\[(.*?)\] (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def run_sx(exe, bc, entries, opts, tier, seed, tmp):
    out = os.path.join(tmp, "out.json")
    cmd = [exe, "--bc", bc, "--out", out, "--time", str(opts["time"]), "--jobs", str(os.cpu_count() or 8),
           "--seed", str(seed), "--tier", str(tier), "--samples", str(opts.get("samples", 3)),
           "--max-viol", "2"]
    for e in entries:
        cmd += ["--entry", e]
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        raise NoAnswer("executor failed (%s):\n%s" % (r.returncode, r.stdout[-3000:]))
    o = json.load(open(out))
    os.remove(out)
    return o


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entries")
    ap.add_argument("--time", type=int)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        try:
            build_engine()
            for f in sorted({g.get("features", ()) for p in PROPS.values() for g in p["groups"]}):
                build_harness(f)
        except NoAnswer as e:
            print(e)
            return 2
        print("setup ok")
        return 0
    tier = 0 if a.tier == "quick" else 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[a.prop]
    t0 = time.time()
    sx = build_engine()
    groups = P["groups"]
    known = [k for k in load_known() if k[0] == a.prop]
    rdir = os.path.join(BUILD, "replays", a.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    ev = dict(paths=0, instructions=0, forks=0, checks=0, checks_solver=0, checks_trivial=0, sat=0, unsat=0,
              unknown=0, queries=0, cache_hits=0, solver_s=0.0, validated=0, mismatches=0)
    complete = True
    lost = {}  # paths the executor could not follow to their end
    funcs, errors, labels, entry_paths, reach, samples = set(), {}, {}, {}, {}, []
    violations, known_hit, notes = [], {}, []
    z3v = ""
    build_s = 0.0
    for gi, g in enumerate(groups):
        tb = time.time()
        exe, bc = build_harness(g.get("features", ()))
        build_s += time.time() - tb
        entries = [e for e in g["entries"] if tier or not e.endswith("_deep")]
        if a.entries:
            entries = [e for e in entries if e in a.entries.split(",")]
            if not entries:
                continue
        opts = dict(time=a.time or (g.get("time", 240) if tier == 0 else g.get("time_thorough", 2400)))
        with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
            o = run_sx(sx, bc, entries, opts, tier, seed, tmp)
            z3v = o["z3"]
            s = o["solver"]
            for k in ("paths", "instructions", "forks", "checks", "checks_solver", "checks_trivial"):
                ev[k] += o[k]
            for k in ("sat", "unsat", "unknown", "queries", "cache_hits"):
                ev[k] += s[k]
            ev["solver_s"] += s["seconds"]
            ev["paths"] += o["assume_fail"]
            for k, v in o["errors"].items():
                lost[k] = lost.get(k, 0) + v
            if not o["complete"]:
                complete = False
            for k, v in o["check_labels"].items():
                labels[k] = labels.get(k, 0) + v
            entry_paths.update(o["entry_paths"])
            for k, v in o["reach"].items():
                reach[k] = reach.get(k, 0) + v
            funcs |= set(o["functions"])
            # replay counterexamples
            n = 0
            for v in o["violations"]:
                ok = None
                for m in v["models"]:
                    n += 1
                    path = os.path.join(rdir, "%d-%d.model" % (gi, n))
                    lines, rc, err = replay(exe, m, path, tier)
                    if reproduces(v["label"], lines, rc):
                        ok = (path, m, err)
                        break
                    if v["label"].startswith("nontermination") and rc != "timeout":
                        errors["step limit reached on a terminating run"] = 1
                        ok = "skip"
                        break
                if ok == "skip":
                    complete = False
                    continue
                kf = [k for k in known if k[1] == v["label"]]
                if ok is None:
                    errors["counterexample not reproduced natively: %s [%s]" % (v["label"], v["entry"])] = 1
                elif kf:
                    known_hit[v["label"]] = (kf[0], ok)
                else:
                    violations.append((v, ok))
            # validate sampled paths
            recs = o["samples"] + list(o["reach_models"].values() if isinstance(o["reach_models"], dict) else [])
            for m in recs[:opts.get("max_validate", 160)]:
                if m["outcome"] != "ok":
                    continue
                path = os.path.join(tmp, "s.model")
                lines, rc, err = replay(exe, m, path, tier)
                want = ["OBS %s %s" % (x[0], x[1]) for x in m["obs"]]
                got = [l for l in lines if l.startswith("OBS ")]
                if "PASS" in lines and want == got:
                    ev["validated"] += 1
                else:
                    ev["mismatches"] += 1
                    keep = os.path.join(rdir, "mismatch-%d.model" % ev["mismatches"])
                    shutil.copy(path, keep)
                    with open(keep, "a") as f:
                        f.write("".join("# want %s\n" % l for l in want) + "".join("# got %s\n" % l for l in lines))
                    errors["native replay of an explored path differs (%s)" % m["entry"]] = \
                        errors.get("native replay of an explored path differs (%s)" % m["entry"], 0) + 1
                if len(samples) < 12 or (m["entry"] not in [x["entry"] for x in samples] and len(samples) < 40):
                    samples.append(dict(entry=m["entry"], inputs=m["inputs"][:12],
                                        observations=[x[0] + "=" + x[1][:120] for x in m["obs"]][:6]))
            missing = [r for r in g.get("reach", []) if r not in o["reach"]]
            if missing and not a.entries:
                if o["complete"] and not o["violations"]:
                    errors["vacuous: no input reaches %s" % missing] = 1
                else:
                    notes.append("not reached: %s" % missing)
    if lost:
        complete = False
        n = sum(lost.values())
        if n * 4 > ev["paths"] + n:
            errors.update(lost)
        else:
            notes += ["%d paths not followed to their end: %s" % (v, k) for k, v in sorted(lost.items())]
    wall = time.time() - t0
    dem = demangle(sorted(funcs))
    mine = sorted(set(x for x in dem if "viadkim::" in x and "drop_glue" not in x and "grow_one" not in x))
    bounds = P["bounds"][tier] if isinstance(P["bounds"], (list, tuple)) else P["bounds"]
    cov = {
        "states": ev["paths"], "transitions": ev["forks"] + ev["instructions"],
        "traces_validated_against_impl": ev["validated"], "samples": samples,
        "exhaustive": bool(complete and not errors),
        "explanation": "states = execution paths (path conditions) explored to their end; transitions = IR "
                       "instructions interpreted plus symbolic forks",
        "paths": ev["paths"], "ir_instructions": ev["instructions"], "symbolic_forks": ev["forks"],
        "entry_paths": entry_paths,
        "assertions_evaluated": ev["checks"],
        "assertions_decided_by_solver": ev["checks_solver"],
        "assertions_decided_by_simplification": ev["checks_trivial"],
        "assertion_labels": labels, "reach_witnesses": reach,
        "solver": {"name": "z3", "version": z3v, "queries": ev["queries"], "cache_hits": ev["cache_hits"],
                   "sat": ev["sat"], "unsat": ev["unsat"], "unknown": ev["unknown"],
                   "seconds": round(ev["solver_s"], 3)},
        "functions_encoded": mine, "functions_encoded_total": len(funcs),
        "bounds": bounds, "outside_bounds": P.get("outside", ""),
        "errors": errors, "notes": notes,
    }
    e = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
         "level": "model_checking", "coverage": cov, "assumptions": P.get("assumptions", []) + ASSUME,
         "violations": len(violations), "wall_s": round(wall, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
    print("%s %s: %d paths, %d assertions (%d by solver), %d queries in %.1fs, %d paths replayed natively, "
          "build %.0fs, total %.0fs%s" % (a.prop, a.tier, ev["paths"], ev["checks"], ev["checks_solver"], ev["queries"],
                                         ev["solver_s"], ev["validated"], build_s, wall,
                                         "" if complete else "  INCOMPLETE (paths not followed)" if lost else "  INCOMPLETE (time budget)"))
    for k, v in sorted(errors.items(), key=lambda x: -x[1])[:12]:
        print("ERROR x%d: %s" % (v, k))
    for n in notes:
        print("NOTE:", n)
    for l, (k, ok) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k[2]))
    for v, (path, m, err) in violations:
        print("  %s: %s" % (v["entry"], v["label"]))
        for l in m["inputs"][:20]:
            print("    " + l)
        for n, h in m["obs"][:8]:
            print("    obs %s = %r" % (n, bytes.fromhex(h)))
        if err.strip():
            print("    " + "\n    ".join(err.strip().split("\n")[:4]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    if violations:
        return 1
    if errors:
        return 2
    return 0


ASSUME = [
    "rustc, LLVM's bitcode reader and transforms, the executor's instruction semantics (self-test and native replay "
    "of sampled paths compare them) and Z3 are trusted",
    "hash functions and signature primitives are ideal (injective) models; key formats are real code",
    "memory allocation does not fail",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER:", e)
        sys.exit(2)
