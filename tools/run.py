#!/usr/bin/env python3
"""Decides one property: run.py <property>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

For each pipeline of the property:
  1. TLC explores the generator specification (spec/*Gen.tla) and prints the cases it reaches;
  2. the Rust driver carries them out on the real luafmt, built from /repo's working tree;
  3. TLC evaluates the conformance specification (spec/*Judge.tla) on the recorded runs.
Exit 0: the property held on everything explored.  Exit 1: a violation (line VIOLATION property=.. replay=..).
Exit 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CHUNK = 60000

FORMATTER, PROGRAM = ("Gen", "Judge"), ("CliGen", "CliJudge")
PIPELINES = {"default": [FORMATTER], "C05": [FORMATTER, PROGRAM], "C23": [FORMATTER, PROGRAM]}
for p in ("C17", "C18", "C19", "C20", "C21", "C22"):
    PIPELINES[p] = [PROGRAM]
PIPELINES["C17"] = [PROGRAM, FORMATTER]

def fail(msg):
    print("CHECK ERROR:", msg)
    sys.exit(2)

def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME=os.environ.get("RUSTUP_HOME", "/root/.rustup"),
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="")
    e.pop("RUSTFLAGS", None)
    return e

def build():
    """Builds driver and program from /repo's working tree (forgetting everything built from another tree)."""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for top in ("src", "Cargo.toml", "build.rs"):
        top = os.path.join(REPO, top)
        files = [top] if os.path.isfile(top) else [os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs]
        for f in sorted(files):
            if os.path.basename(f) in ("lua_syntax.rs", "comment_syntax.rs"):
                continue
            h.update(f.encode()); h.update(open(f, "rb").read())
    stamp = os.path.join(BUILD, "stamp")
    if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
        if os.path.exists(stamp):
            os.remove(stamp)
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        for d in (os.listdir(fp) if os.path.isdir(fp) else []):
            if d.startswith("luafmt-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                if f.endswith(".lalrpop") and os.path.exists(os.path.join(d, f[:-8] + ".rs")):
                    os.remove(os.path.join(d, f[:-8] + ".rs"))
    r = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        fail("the driver does not build")
    open(stamp, "w").write(h.hexdigest())

def tlc(module, extra, work, timeout, out):
    """Runs TLC on spec/<module>; returns (distinct, generated)."""
    e = dict(os.environ); e.update(extra)
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss512m", "-Xmx14g", "-XX:+UseParallelGC", "-cp", JARS,
           "tlc2.TLC", "-workers", "8", "-fp", "0", "-nowarning", "-noGenerateSpecTE", "-metadir", os.path.join(work, "meta"),
           "-config", module + ".cfg", module + ".tla"]
    with open(out, "w") as f:
        try:
            subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            fail("TLC timed out on %s" % module)
    text = open(out, encoding="utf8").read()
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found, 0 states left", text, re.M)
    if not m or "Model checking completed. No error has been found" not in text:
        lines = [l for l in text.split("\n") if not l.startswith('"{')]
        print("\n".join(lines[-40:])[-4000:])
        fail("TLC failed on %s" % module)
    return int(m.group(2)), int(m.group(1)), text

def generate(module, prop, tier, seed, work, timeout):
    d, g, text = tlc(module, dict(PROP=prop, VERIF_TIER=tier, VERIF_SEED=seed), work, timeout, os.path.join(work, "gen.log"))
    cases = sorted({l for l in text.split("\n") if l.startswith('"{')})
    return d, g, [json.loads(c) for c in cases]

def drive_raw(lines, work):
    driver = os.path.join(TARGET, "debug", "luafmt-conformance")
    scratch = tempfile.mkdtemp(prefix="luafmt-check-")
    os.chmod(scratch, 0o755)
    program = os.path.join(scratch, "luafmt-cli")
    shutil.copy(os.path.join(TARGET, "debug", "luafmt-cli"), program)
    os.chmod(program, 0o755)
    try:
        r = subprocess.run([driver, program, scratch], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, encoding="utf8", timeout=1200)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return r.returncode, r.stdout.strip("\n").split("\n")

def aborted(line):
    c = json.loads(line)
    for r in c.get("runs", []):
        r.update(st="abort", out="")
        r.setdefault("src", "")
    c["code"] = "signal"
    for k in ("stdout", "stderr"):
        c.setdefault(k, "")
    c.setdefault("after", []); c.setdefault("stray", 0)
    return json.dumps(c, ensure_ascii=False)

def drive(lines, work, budget):
    """Results for all lines.  Cases that end the driver are found by halving and reported as aborted."""
    out = [None] * len(lines)
    todo = [list(range(len(lines)))]
    bad = 0
    while todo:
        idx = todo.pop()
        if not idx:
            continue
        code, res = drive_raw([lines[i] for i in idx], work)
        if code == 4:
            fail("the program cannot be run")
        if code in (0, 3) and len(res) == len(idx):
            again = []
            for i, r in zip(idx, res):
                if r == '{"undone":true}':
                    again.append(i)
                else:
                    out[i] = r
            if again:
                bad += 1
                if bad > 6:
                    # enough: the tree hangs or crashes all over; the rest is not judged
                    return [o for o in out if o is not None]
                todo.append(again)
        elif len(idx) == 1:
            out[idx[0]] = aborted(lines[idx[0]])
            bad += 1
            if bad > 6:
                return [o for o in out if o is not None]
        else:
            h = len(idx) // 2
            todo += [idx[h:], idx[:h]] if len(idx) > 2 else [idx[1:], idx[:1]]
    return out

def judge(module, prop, tier, results, work, timeout):
    path = os.path.join(work, "runs.ndjson")
    with open(path, "w", encoding="utf8") as f:
        f.write("\n".join(results) + "\n")
    d, g, text = tlc(module, dict(PROP=prop, VERIF_TIER=tier, CASES=path), work, timeout, os.path.join(work, "judge.log"))
    verdicts = {}
    if module == "CliJudge":
        # a case conforms if some behaviour of the program explains it
        ok = {int(m) for m in re.findall(r'<<"ACCEPT", (\d+)>>', text)}
        if d < len(results) or not ok <= set(range(1, len(results) + 1)):
            fail("%s judged %d of %d cases" % (module, len(ok), len(results)))
        return d, g, {i: ("bad", "no behaviour of the program explains what was recorded") for i in range(len(results)) if i + 1 not in ok}
    if d != len(results):
        fail("%s judged %d of %d cases" % (module, d, len(results)))
    for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*"(\w+)",\s*((?:.|\n)*?)\s*>>\n', text):
        verdicts[int(m.group(1)) - 1] = (m.group(2), re.sub(r"\s+", " ", m.group(3)))
    return d, g, verdicts

def known_findings(prop):
    """The inputs listed as known findings of prop, as a set of keys."""
    res = {}
    for l in open(os.path.join(VERIF, "known-findings.jsonl"), encoding="utf8"):
        l = l.strip()
        if l.startswith("{"):
            k = json.loads(l)
            if k["property"] == prop:
                res[json.dumps(k["case"], sort_keys=True, ensure_ascii=False)] = k["what"]
    return res

def case_key(res):
    """What identifies a case: the inputs of its runs."""
    if res["kind"] == "cli":
        k = {x: res.get(x) for x in ("tree", "cwd", "argv", "in", "inbad", "runs")}
        k["runs"] = [{"src": "" if r["of"] else r["src"], "of": r["of"], "opts": r["opts"]} for r in k["runs"]]
    else:
        k = [{"src": "" if r["of"] else r["src"], "of": r["of"], "opts": r["opts"]} for r in res["runs"]]
    return json.dumps(k, sort_keys=True, ensure_ascii=False)

def inputs_of(res):
    """A result line without what was recorded."""
    c = dict(res)
    for x in ("stdout", "stderr", "code", "after", "stray"):
        c.pop(x, None)
    if "runs" in c:
        c["runs"] = [{"src": "" if r["of"] else r["src"], "of": r["of"], "opts": r["opts"]} for r in c["runs"]]
    return c

def main():
    t0 = time.time()
    if len(sys.argv) < 2:
        fail("usage: run.py <property> | --build | --replay <file>")
    if sys.argv[1] == "--build":
        build()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit():
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:6], 16))
    replayed = None
    if sys.argv[1] == "--replay":
        replayed = json.load(open(sys.argv[2], encoding="utf8"))
        prop = replayed["property"]
    else:
        prop = sys.argv[1]
    budget = 820 if tier == "thorough" else 400
    build()
    known = known_findings(prop)
    states = trans = judged = okay = 0
    phases = dict(generate=0.0, drive=0.0, judge=0.0)
    skips, samples, violations, seen_known, families = {}, [], [], {}, {}
    work = tempfile.mkdtemp(prefix="work-", dir=BUILD)
    cut = False
    try:
        for gen, jud in PIPELINES.get(prop, PIPELINES["default"]):
            if replayed:
                if replayed["pipeline"] != jud:
                    continue
                cases = [json.dumps(replayed["case"], ensure_ascii=False)]
            else:
                t1 = time.time()
                d, g, cases = generate(gen, prop, tier, seed, work, budget)
                phases["generate"] += time.time() - t1
                states += d; trans += g
                if not cases:
                    fail("no cases generated")
                # the known findings themselves are always tried
                for k in known:
                    c = json.loads(k)
                    if isinstance(c, list) and jud == "Judge":
                        cases.append(json.dumps({"fam": 0, "kind": "one", "runs": c}, ensure_ascii=False))
                    elif isinstance(c, dict) and jud == "CliJudge":
                        cases.append(json.dumps(dict(c, fam=0, kind="cli"), ensure_ascii=False))
            for a in range(0, len(cases), CHUNK):
                if a > 0 and time.time() - t0 > budget * 0.6:
                    cut = True
                    break
                t1 = time.time()
                results = drive(cases[a:a + CHUNK], work, budget)
                t2 = time.time()
                phases["drive"] += t2 - t1
                d, g, verdicts = judge(jud, prop, tier, results, work, max(60, 880 - (time.time() - t0)))
                phases["judge"] += time.time() - t2
                states += d; trans += g; judged += len(results)
                for i, r in enumerate(results):
                    v = verdicts.get(i, ("ok", ""))
                    if v[0] == "ok":
                        okay += 1
                        fam = "%s-%s" % (jud, json.loads(r)["fam"]) if len(samples) < 40 and i % 97 == 0 else None
                        if fam:
                            samples.append(json.loads(r))
                    elif v[0] == "skip":
                        skips[v[1]] = skips.get(v[1], 0) + 1
                    else:
                        res = json.loads(r)
                        key = case_key(res)
                        if key in known:
                            seen_known[key] = known[key]
                        else:
                            violations.append((jud, res, v[1]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for key, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if judged and okay == 0 and not violations and not replayed:
        fail("no case says anything about the property")
    if not replayed:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": int(seed), "level": "model_checking",
              "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": okay,
                           "cases_recorded": judged, "cases_that_say_nothing": skips, "samples": samples[:12],
                           "exhaustive": False, "cut_short": cut,
                           "rule": "states and transitions as counted by TLC for generator and judge; a trace is validated when its verdict is ok"},
              "assumptions": ["TLC, the JVM, rustc and the driver are trusted",
                              "inputs outside the bounds of the families in spec/Families.tla (spec/CliGen.tla) are not explored"],
              "phases_s": {k: round(v, 1) for k, v in phases.items()}, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[1])))
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, (jud, res, what) in enumerate(violations[:3]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n + 1))
            json.dump({"property": prop, "pipeline": jud, "verdict": what, "case": inputs_of(res), "recorded": res,
                       "how": "python3 tools/run.py --replay " + path}, open(path, "w"), indent=1, ensure_ascii=False)
            print("%s: %s" % (what, json.dumps(res, ensure_ascii=False)[:1500]))
        print("%d violating cases" % len(violations))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(rdir, "%s-1.json" % prop)))
        sys.exit(1)
    print("%s %s: %d cases judged, %d conform, skipped %s, %d states, %.1f s %s"
          % (prop, tier, judged, okay, skips, states, time.time() - t0, {k: round(v, 1) for k, v in phases.items()}))

if __name__ == "__main__":
    main()
