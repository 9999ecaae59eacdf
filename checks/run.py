#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]

Builds /repo's working tree and the harness to LLVM IR, executes the questions
of the property symbolically, lets the SMT solver decide them, replays what it
finds against the natively built code, and writes evidence/PROPERTY.json.

Exit 0: it held on everything explored. 1: it does not, and a VIOLATION line
says so. Anything else: no answer. Questions that meet a limit of time or memory
are told, and stay open; when more than half of them do, or those of an entry
that are decided are vacuous, there is no answer.
"""
import collections, fcntl, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import jobs as J

TARGET = os.path.join(VERIF, "target")
LL = os.path.join(TARGET, "ll", "release", "deps", "harness.ll")
REPLAY = os.path.join(TARGET, "native", "debug", "replay")
ENGINE = os.path.join(TARGET, "engine", "release", "lsym")
START = time.time()


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, target, timeout):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
               CARGO_TARGET_DIR=os.path.join(TARGET, target))
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def engine():
    sh(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "engine"), "engine", 600)


def forget(target, profile):
    """What depends on /repo is built again, whatever its timestamps say."""
    for k in ("langtag", "harness", "replay"):
        for f in glob.glob(os.path.join(TARGET, target, profile, ".fingerprint", k + "-*")):
            shutil.rmtree(f, ignore_errors=True)


def build():
    h = os.path.join(VERIF, "harness")
    forget("ll", "release")
    for f in glob.glob(os.path.join(TARGET, "ll", "release", "deps", "harness*.ll")):
        os.unlink(f)
    sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-ir",
        "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], h, "ll", 600)
    forget("native", "debug")
    sh(["cargo", "build", "--offline", "--bin", "replay"], h, "native", 600)
    if not os.path.exists(LL):
        raise NoAnswer("no IR was emitted")


def native(lines):
    """How each `job model` ends in the code built natively."""
    r = subprocess.run([REPLAY], input="".join(x + "\n" for x in lines), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, timeout=600)
    out = r.stdout.splitlines()
    if len(out) != len(lines):
        raise NoAnswer("replay gave %d answers to %d questions" % (len(out), len(lines)))
    res = []
    for x in out:
        m = re.match(r"(.*) \[([\d,]*)\]$", x)
        res.append((m.group(1), [int(k) for k in m.group(2).split(",") if k]) if m else (x, []))
    return res


def name(s):
    """The path in a mangled name, roughly."""
    if not s.startswith("_R"):
        return s
    parts, i = [], 2
    while i < len(s):
        m = re.compile(r"(?:s[0-9A-Za-z]*_)?(\d+)_?").match(s, i)
        if m and s[i].isdigit():
            n = int(m.group(1))
            j = m.end()
            w = s[j:j + n]
            if n == 0 or not re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w):
                i = j
                continue
            parts.append(w)
            i = j + n
        elif s[i] == "C" or s[i] == "s":
            # a disambiguator
            k = s.find("_", i)
            if k < 0 or not re.fullmatch(r"C?s?[0-9A-Za-z]*", s[i:k]) or s[i + 1:i + 2].isdigit():
                i += 1
            else:
                i = k + 1
        else:
            i += 1
    return "::".join(parts) or s


def text_of(job, model):
    """The symbolic bytes, for a reader."""
    return repr(bytes.fromhex(model)[16:])


def known():
    out = collections.defaultdict(list)
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) reach=(\d+) (.*)", line.strip())
        if m:
            out[m.group(1)].append((int(m.group(2)), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    deep = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    # the whole check stays within 900 s in the quick tier
    total = int(os.environ.get("LSYM_TOTAL", "14400" if deep else "640"))
    todo = J.jobs(prop, deep)
    need = J.CHECKS[prop][1]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    work = os.path.join(TARGET, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        with open(os.path.join(TARGET, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            engine()
            build()
            ll = os.path.join(work, "harness.ll")
            shutil.copy(LL, ll)
            global REPLAY
            shutil.copy(REPLAY, os.path.join(work, "replay"))
            REPLAY = os.path.join(work, "replay")
        built = time.time() - START
        return decide(prop, tier, deep, seed, total, todo, need, work, ll, built)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, deep, seed, total, todo, need, work, ll, built):
    jf, of = os.path.join(work, "jobs"), os.path.join(work, "out")
    with open(jf, "w") as f:
        f.write("".join(j + "\n" for j in todo))
    cmd = [ENGINE, "--ll", ll, "--jobs", jf, "--out", of, "-j", "8", "--time", str(3600 if deep else 90), "--memory", "2700",
           "--solve-time", "600" if deep else "60", "--total", str(total), "--stop", "4", "--seed", str(seed), "--solver", "z3-new"]
    if deep:
        cmd += ["--cross", "cvc5"]
    try:
        r = subprocess.run(cmd, timeout=total + 120, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        died = r.stderr[-2000:] if r.returncode != 0 else ""
    except subprocess.TimeoutExpired:
        died = "the engine ran out of time"
    res = []
    if os.path.exists(of):
        for line in open(of):
            try:
                res.append(json.loads(line))
            except ValueError:
                died = died or "a broken answer"
    errors = ["%s: %s" % (r["job"], r["error"]) for r in res if r["status"] == "error"]
    # ---- violations: only what the real code reproduces
    cands = [(r, c) for r in res for c in r.get("cex", [])]
    ends = native(["%s %s" % (r["job"], c["model"]) for r, c in cands])
    real, unreal = [], []
    for (r, c), (how, trace) in zip(cands, ends):
        (real if how.startswith(("fail", "signal", "exit")) else unreal).append((r, c, how))
    confirmed = {r["job"] for r, _, _ in real}
    errors += ["%s: %s does not reproduce natively (%s)" % (r["job"], c["what"], how) for r, c, how in unreal
               if r["job"] not in confirmed]
    # ---- the engine and the real code agree on sampled inputs
    samples = [(r, s) for r in res for s in r.get("samples", [])]
    ends = native(["%s %s" % (r["job"], s["model"]) for r, s in samples])
    validated = 0
    for (r, s), (how, trace) in zip(samples, ends):
        e = s["engine"]
        if e.get("status") == "done" and how == "done" and e.get("trace") == trace:
            validated += 1
        elif e.get("status") == "assumed" and how == "assumed":
            validated += 1
        elif (e.get("status") or "").startswith("bad") and how.startswith(("fail", "signal", "exit")):
            validated += 1
        else:
            errors.append("%s: on %s the engine says %s, the code %s %s" % (r["job"], s["model"], e, how, trace))
    # ---- nothing is vacuous
    reached = collections.defaultdict(set)
    for r in res:
        reached[r["job"].split()[0]].update(r.get("reached", []))
    done = {r["job"] for r in res if r["status"] != "undecided"}
    missing = [j for j in todo if j not in done]
    why = collections.Counter(r["error"] for r in res if r["status"] == "undecided")
    vacuous = [(e, k) for e, ks in need.items() for k in ks if k not in reached[e]]
    # ---- known findings
    lines = []
    for point, what in known().get(prop, []):
        if any(point in v for v in reached.values()):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
    # ---- evidence
    funcs = collections.Counter()
    for r in res:
        for f, k in r.get("functions", {}).items():
            funcs[f] += k
    qs = [q for r in res for q in r.get("queries", [])]
    answers = collections.Counter((q["solver"], q["question"], q["answer"].split()[0]) for q in qs)
    by_entry = collections.defaultdict(lambda: {"jobs": 0, "reached": set(), "arguments": []})
    for r in res:
        b = by_entry[r["job"].split()[0]]
        b["jobs"] += 1
        b["reached"].update(r.get("reached", []))
        b["arguments"].append(" ".join(r["job"].split()[1:]))
    pick = sorted(samples, key=lambda x: (x[0]["job"], x[1]["model"]))
    step = max(1, len(pick) // 6)
    show = [{"job": r["job"], "model": s["model"], "symbolic_bytes_without_fixed_separators": text_of(r["job"], s["model"]), "point_reached": s["reach"],
             "engine": s["engine"]} for r, s in pick[::step][:6]]
    own = sorted({"langtag" + name(f).split("langtag", 1)[-1] for f in funcs if "langtag" in name(f)})
    lib = sorted({name(f) for f in funcs if "langtag" not in f and "harness" not in f and not re.match(r"p\d\d_", f)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.get("states", 0) for r in res),
            "transitions": sum(r.get("steps", 0) for r in res),
            "traces_validated_against_impl": validated,
            "samples": show,
            "questions": len(todo), "questions_decided": len([r for r in res if r["status"] in ("ok", "bad")]),
            "questions_left_open": missing[:400],
            "queries": [{"solver": a, "question": b, "answer": c, "count": n} for (a, b, c), n in sorted(answers.items())],
            "solver_s": round(sum(q["s"] for q in qs), 1),
            "symbolic_execution_s": round(sum(r.get("exec_s", 0) for r in res), 1),
            "build_s": round(built, 1),
            "path_ends": sum(r.get("ends", 0) for r in res),
            "merges": sum(r.get("merges", 0) for r in res),
            "functions_of_langtag_encoded": own,
            "library_functions_encoded": lib[:200],
            "entries": {e: {"jobs": b["jobs"], "reached": sorted(b["reached"]), "arguments": sorted(b["arguments"])[:400]}
                        for e, b in sorted(by_entry.items())},
            "bounds": "per job: the symbolic text has exactly the stated length, or the stated lengths of segments "
                      "(hexadecimal digits); all values of its bytes are covered, as are all choices. Longer texts and "
                      "other shapes are outside. Loops are not cut: a job that does not terminate is an error.",
        },
        "assumptions": [
            "LLVM IR of the release profile (with overflow and debug assertions), as emitted by rustc stable, stands for the code",
            "the allocator never fails; no two allocations are adjacent",
            "entries whose texts are built by `text` cover ASCII; others say so in harness/src",
            "the hashers of p12/p15 look at the first 255 items fed and at their count",
        ],
        "wall_s": round(time.time() - START, 1),
        "violations": len(confirmed),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for x in lines:
        print(x)
    if real:
        r, c, how = real[0]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.txt" % prop)
        with open(path, "w") as f:
            f.write("# property %s is violated; each line below is a question and the input that breaks it.\n" % prop)
            f.write("# Run it on the real code with: target/native/debug/replay < %s\n" % path)
            for r, c, how in real:
                f.write("# %s at %s; natively: %s; symbolic bytes %s\n" % (c["what"], c["where"], how, text_of(r["job"], c["model"])))
                f.write("%s %s\n" % (r["job"], c["model"]))
        print("%s: %s (natively: %s), symbolic bytes %s" % (r["job"], c["what"], how, text_of(r["job"], c["model"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if 2 * len(missing) > len(todo):
        errors.append("%d of %d questions were not decided (%s): %s ..." % (len(missing), len(todo), died or dict(why), missing[0]))
    elif died:
        errors.append(died)
    if vacuous and not errors:
        errors.append("never reached: %s" % vacuous)
    if errors:
        print("NO ANSWER for %s: %d problems" % (prop, len(errors)))
        for e in errors[:8]:
            print("  " + e[:600])
        return 2
    if missing:
        print("%d of %d questions were left open (%s): %s" % (len(missing), len(todo), dict(why) or "out of time", "; ".join(missing[:8])))
    print("%s holds: %d questions, %d solver queries, %d traces validated, %.0f s" %
          (prop, len(todo) - len(missing), len(qs), validated, time.time() - START))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
