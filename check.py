#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]      decide one property on /repo's current working tree
   check.py --setup                           build everything once
   check.py --replay FILE                     run a recorded counterexample against the real code
   check.py --one HARNESS [--time S]          run one harness (development)
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (error of the check)."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
from harnesses import H, ASSUME  # noqa: E402

BUILD = os.path.join(V, "build")
ENV = {k: v for k, v in os.environ.items()
       if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER")}
ENV.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
JOBS = os.cpu_count() or 4


INDIRECT = set()  # programs that can only be built without the conversion of single trees


class Broken(Exception):
    pass


def sh(cmd, cwd, timeout=800, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode(errors="replace")
    if p.returncode != 0:
        raise Broken("%s failed in %s:\n%s" % (" ".join(cmd), cwd, out[-6000:]))
    return out


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write(text)


def tree_hash():
    h = hashlib.sha256()
    roots = [REPO + "/src", REPO + "/Cargo.toml", V + "/harness", V + "/models"]
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, _, fl in os.walk(r) for f in fl if "/target" not in d)
        for f in fs:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def prepare(kind):
    """The cargo package for the symbolic ('sym') or the native ('nat') build of the harnesses."""
    d = os.path.join(BUILD, kind)
    toml = open(V + "/harness/Cargo.toml").read()
    if kind == "sym":
        toml += '\n[patch.crates-io]\nphf = { path = "%s/models/phf" }\n' % V
    write(d + "/Cargo.toml", toml)
    if not os.path.exists(d + "/Cargo.lock"):
        lock = V + "/harness/Cargo.%s.lock" % kind
        if os.path.exists(lock):
            shutil.copy(lock, d + "/Cargo.lock")
    if os.path.islink(d + "/src"):
        os.unlink(d + "/src")
    os.symlink(V + "/harness/src", d + "/src")
    # cargo decides by time stamps what to rebuild; decide by contents instead
    hf, cur = d + "/tree.sha256", tree_hash()
    if os.path.exists(d + "/target") and (not os.path.exists(hf) or open(hf).read() != cur):
        for p in ("soupy", "hx"):
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", p], cwd=d, env=ENV,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in glob.glob(d + "/target/release/deps/*.ll"):
            os.unlink(f)
    write(hf, cur)
    return d


def build_engine():
    sh(["cargo", "build", "--offline", "--release"], V + "/engine")


def build(kind, bins):
    d = prepare(kind)
    for b in bins:
        feat = ["native"] if kind == "nat" else []
        if kind == "sym":
            cmd = ["cargo", "rustc", "--offline", "--release", "--bin", b]
            tail = ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
                    "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"]
        else:
            cmd, tail = ["cargo", "build", "--offline", "--release", "--bin", b], []
        try:
            sh(cmd + ["--features", ",".join(feat)] + tail, d)
        except Broken as e:
            # the trait implementations that convert single trees may have been replaced by something else
            if b not in ("lenient", "xml") or not re.search(r"E0(277|308|599)\b", str(e)):
                raise
            sh(cmd + ["--features", ",".join(feat + ["indirect"])] + tail, d)
            INDIRECT.add(b)


def build_all(bins):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_engine), ex.submit(build, "sym", bins), ex.submit(build, "nat", bins)]
            for f in fs:
                f.result()


def ir_of(b):
    c = sorted(glob.glob(BUILD + "/sym/target/release/deps/%s-*.ll" % b), key=os.path.getmtime)
    if not c:
        raise Broken("no LLVM IR for " + b)
    return c[-1]


def native(b, h, hexs, show=False, timeout=30):
    env = dict(ENV)
    if show:
        env["SHOW"] = "1"
    # a runaway case must not take the sandbox's memory
    opts = [y for q in H.values() for x in q if x["h"] == h for y in x.get("opts", ())]
    stack = int(opts[opts.index("--stack") + 1]) if "--stack" in opts else 8 << 20
    cmd = ["bash", "-c", "ulimit -v 8000000; ulimit -s %d; exec \"$0\" \"$@\"" % (stack >> 10),
           BUILD + "/nat/target/release/" + b, h, hexs]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", ""
    out = p.stdout.decode(errors="replace")
    if p.returncode == 0:
        m = re.search(r"^OK ([0-9a-f]{16})$", out, re.M)
        return ("ok:" + m.group(1)) if m else "odd", out
    m = re.search(r"^ASSERT-FAILED (\d+)$", out, re.M)
    if m:
        return "assert:" + m.group(1), out
    if p.returncode == 42:
        return "assume", out
    return "crash", out


def run_harness(b, h, secs, jobs=JOBS, seed=1, samples=25, extra=()):
    d = BUILD + "/out/" + h
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = [V + "/engine/target/release/symx", "--ll", ir_of(b), "--fn", h, "--dir", d, "--jobs", str(jobs),
           "--time", str(secs), "--samples", str(samples), "--seed", str(seed), *extra]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120)
        tail = p.stdout.decode(errors="replace")[-1500:]
    except subprocess.TimeoutExpired:
        raise Broken("%s: the engine did not stop at its time limit" % h)
    try:
        s = json.load(open(d + "/summary.json"))
    except Exception:
        raise Broken("%s: no summary from the engine (exit %s): %s" % (h, p.returncode, tail))
    s.update(viol=[], samples=[], errs=[], fns={})
    for f in glob.glob(d + "/w*.jsonl"):
        for line in open(f, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            t = r.pop("t")
            if t == "viol":
                s["viol"].append(r)
            elif t == "sample":
                s["samples"].append(r)
            elif t == "error":
                s["errs"].append(r["msg"])
            elif t == "fn":
                a = s["fns"].setdefault(r["name"], [0, r["blocks"]])
                a[0] = max(a[0], r["cov"])
    s["wall"] = time.time() - t0
    shutil.rmtree(d, ignore_errors=True)
    return s


def known():
    """Findings listed as 'known: property=<id> harness=<h> input=<regexp over the hex input> <text>'."""
    r = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) input=(\S+) (.*)", line)
            if m:
                r.append(m.groups())
    return r


def check(pid, tier, seed):
    t0 = time.time()
    conf = H[pid]
    hs = [x for x in conf if tier == "thorough" or x.get("tier", "quick") == "quick"]
    # a deeper harness replaces the shallower ones it covers
    if tier == "thorough":
        gone = {y for x in hs for y in x.get("covers", ())}
        hs = [x for x in hs if x["h"] not in gone]
    bins = sorted({x["bin"] for x in hs})
    build_all(bins)
    built = time.time() - t0
    budget = (float(os.environ.get("VERIF_BUDGET", 0)) or (560 if tier == "quick" else 6 * 3600))
    deadline = time.time() + budget - (built if tier == "quick" else 0)
    kn = known()
    viols, errors, incomplete, knownhit = [], [], [], []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], harnesses=[], queries=0,
               solver_s=0.0, paths=0, assertions=0, functions_encoded={})
    enc = {}
    for x in [x for x in hs if x.get("direct") and x["bin"] in INDIRECT]:
        incomplete.append("%s: the conversion of single trees is not public" % x["h"])
    hs = [x for x in hs if not (x.get("direct") and x["bin"] in INDIRECT)]
    # in the quick tier no harness may take the others' time: the slow ones are run again at the end
    work = [(x, True) for x in hs]
    while work:
        x, first = work.pop(0)
        h, b = x["h"], x["bin"]
        left = deadline - time.time()
        if left < 5:
            incomplete.append("%s: %s, out of time" % (h, "not started" if first else "not finished"))
            continue
        lim = min(left, x.get("time", 400 if tier == "quick" else 3 * 3600))
        first = first and tier == "quick" and lim > 90
        if first:
            lim = 90
        s = run_harness(b, h, int(lim), seed=seed, extra=x.get("opts", ()))
        if first and not s["complete"] and not s["viol"] and s["wall"] >= lim - 1 and (work or left > 120):
            work.append((x, False))
            continue
        # replay what the solver found
        seen = set()
        for v in s["viol"]:
            key = (v["kind"], v["id"])
            if key in seen:
                continue
            r, out = native(b, h, v["bytes"], show=True)
            real = r == "crash" or r == "hang" or r.startswith("assert")
            if not real and v["kind"] in ("stack", "step-limit"):
                # the engine's limits are not those of the machine
                incomplete.append("%s: %s on input %s, which the compiled code finishes" % (h, v["kind"], v["bytes"]))
                continue
            if not real:
                errors.append("%s: counterexample %s (%s %s) does not reproduce natively (%s)\n%s" %
                              (h, v["bytes"], v["kind"], v["id"], r, "\n".join(v["stack"][:12])))
                continue
            seen.add(key)
            k = [q for q in kn if q[0] == pid and q[1] == h and re.fullmatch(q[2], v["bytes"])]
            if k:
                knownhit.append(k[0][3])
                continue
            viols.append(dict(property=pid, harness=h, bin=b, bytes=v["bytes"], engine=v["kind"], id=v["id"],
                              native=r, loc=v["loc"], stack=v["stack"][:20], output=out[-3000:],
                              bounds=x["bounds"]))
        for e in s["errs"]:
            m = re.search(r"input ([0-9a-f]*)", e)
            if "time limit" in e:
                continue
            if m:
                # a path the engine could not finish: does the real code fail there?
                r, out = native(b, h, m.group(1), show=True)
                k = [q for q in kn if q[0] == pid and q[1] == h and re.fullmatch(q[2], m.group(1))]
                if k and not r.startswith("ok"):
                    knownhit.append(k[0][3])
                    continue
                if r == "hang" or r == "crash" or r.startswith("assert"):
                    viols.append(dict(property=pid, harness=h, bin=b, bytes=m.group(1), engine="path not finished",
                                      id=0, native=r, loc="", stack=[e[:500]], output=out[-3000:],
                                      bounds=x["bounds"]))
                    break
        bad = 0
        for q in sorted(s["samples"], key=lambda q: hashlib.md5(q["bytes"].encode()).digest())[:80]:
            r, out = native(b, h, q["bytes"])
            if r == "ok:" + q["obs"]:
                cov["traces_validated_against_impl"] += 1
            elif s["viol"] and not r.startswith("ok"):
                pass
            else:
                bad += 1
                if bad < 3:
                    errors.append("%s: the engine and the compiled code disagree on input %s (%s, %s)" %
                                  (h, q["bytes"], q["obs"], r))
        if s["errors"]:
            incomplete.append("%s: %d path(s) not finished: %s" % (h, s["errors"], s["errs"][0].split("\n")[0][:300]))
        elif not s["complete"]:
            incomplete.append("%s: stopped after %d paths (time limit)" % (h, s["paths"]))
        if not s["viol"]:
            miss = [k for k in x.get("reach", [1]) if k not in s["reach"]]
            if miss and s["complete"]:
                errors.append("%s: vacuous, never reached %s" % (h, miss))
            if s["paths"] == 0:
                errors.append("%s: no path finished" % h)
        cov["states"] += s["states"]
        cov["transitions"] += s["insns"]
        cov["queries"] += s["queries"]
        cov["solver_s"] += s["solver_s"]
        cov["paths"] += s["paths"]
        cov["assertions"] += s["asserts"]
        cov["harnesses"].append(dict(harness=h, bounds=x["bounds"], complete=s["complete"], paths=s["paths"],
                                     branch_states=s["states"], ir_instructions=s["insns"],
                                     assertions_decided=s["asserts"], queries=s["queries"],
                                     solver_s=round(s["solver_s"], 2), wall_s=round(s["wall"], 1),
                                     infeasible_by_assumption=s["killed"], reached=s["reach"]))
        if s["samples"]:
            q = s["samples"][0]
            r, out = native(b, h, q["bytes"], show=True)
            cov["samples"].append(dict(harness=h, input=q["bytes"], shown=out.strip()[:400]))
        for n, (c, t) in s["fns"].items():
            a = enc.setdefault(n, [0, t])
            a[0] = max(a[0], c)
        if viols:
            break
    own = {n: "%d/%d blocks" % tuple(a) for n, a in sorted(enc.items()) if re.search(r"\bsoupy::|5soupy", n)}
    cov["functions_encoded"] = own
    cov["functions_encoded_total"] = len(enc)
    cov["solver_s"] = round(cov["solver_s"], 2)
    cov["solver"] = "z3 4.8.12 (bit-vectors); byte-domain pre-solver answers, confirmed by z3 where infeasible"
    cov["incomplete"] = incomplete
    cov["build_s"] = round(built, 1)
    cov["exhaustive"] = not incomplete and not errors
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=ASSUME + ["bounds: %s: %s" % (x["h"], x["bounds"]) for x in hs],
              wall_s=round(time.time() - t0, 1), violations=len(viols))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for k in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for m in incomplete:
        print("INCOMPLETE: " + m)
    for m in errors:
        print("ERROR: " + m)
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries, solver %.1f s, wall %.1f s (build %.1f s)" %
          (pid, tier, len(cov["harnesses"]), cov["paths"], cov["assertions"], cov["queries"], cov["solver_s"],
           time.time() - t0, built))
    if viols:
        os.makedirs(V + "/replays", exist_ok=True)
        for i, v in enumerate(viols):
            p = "%s/replays/%s-%s-%d.json" % (V, pid, v["harness"], i)
            json.dump(v, open(p, "w"), indent=1)
            print(v["output"].strip()[-700:])
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 2 if errors else 0


def replay(path):
    v = json.load(open(path))
    build_all([v["bin"]])
    r, out = native(v["bin"], v["harness"], v["bytes"], show=True)
    print(out)
    print("result:", r)
    return 1 if r == "hang" or r == "crash" or r.startswith("assert") else 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[0] == "--setup":
        build_all(sorted({x["bin"] for c in H.values() for x in c}))
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--one":
        # development: check.py --one BIN HARNESS... [--time S] [-v]
        b = a[1]
        secs = int(a[a.index("--time") + 1]) if "--time" in a else 120
        build_all([b])
        for h in [x for x in a[2:] if x.startswith("h_")]:
            s = run_harness(b, h, secs, seed=seed, extra=[y for q in H.values() for x in q if x["h"] == h for y in x.get("opts", ())])
            for v in s["viol"]:
                r, out = native(b, h, v["bytes"], show=True)
                print("  VIOL", v["kind"], v["id"], v["bytes"], v["loc"], "native:", r, "|", out.strip()[-400:])
                if "-v" in a:
                    print("   " + "\n   ".join(v["stack"][:25]))
            bad = sum(native(b, h, q["bytes"])[0] != "ok:" + q["obs"] for q in s["samples"][:60])
            for e in s["errs"][:4]:
                print("  ERR", e[:700])
            print("%-16s %s paths %d killed %d insn %dM asserts %d q %d solver %.1f wall %.1f reach %s%s" % (
                h, "ok " if s["complete"] else "INC", s["paths"], s["killed"], s["insns"] // 1000000, s["asserts"],
                s["queries"], s["solver_s"], s["wall_s"], s["reach"], " MISMATCH %d" % bad if bad else ""), flush=True)
        return 0
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier, seed)


try:
    sys.exit(main())
except Broken as e:
    print("ERROR:", e)
    sys.exit(2)
