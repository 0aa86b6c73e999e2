#!/usr/bin/env python3
"""Build /repo's current tree with one driver in several instrumented configurations, run it, judge, write evidence.

  check.py <property> [quick|thorough]      decide one property (tier also from VERIF_TIER)
  check.py <property> --replay <file>       re-run one recorded witness

exit 0 held, 1 violation (prints VIOLATION property=.. replay=..), 2 error of the check / inconclusive
"""
import concurrent.futures as cf
import glob, json, os, shutil, subprocess, sys, time, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, os.path.join(HERE, "tools"))
from config import CHECKS  # noqa: E402

WARN = ["-w"]
SANFLAGS = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BUILDS = {
    "san": [(["clang++", "-std=c++17", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"] + SANFLAGS + ["-fsanitize=float-cast-overflow"]),
            (["g++", "-std=c++17", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SANFLAGS)],
    "opt": [["g++", "-std=c++17", "-O2", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"], ["clang++", "-std=c++17", "-O2", "-DNDEBUG"]],
    "sang": [["g++", "-std=c++17", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SANFLAGS],
    "pmr": [["g++", "-std=c++20", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DNIMIDI2_PMR_SYSEX_DATA=1"] + SANFLAGS],
    "custom": [["g++", "-std=c++17", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"] + SANFLAGS],
    "tsan": [["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
             ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]],
}
# coverage guided runs: the fuzzer writes the choices of a driver's case generators, the driver's oracles judge as always
FUZZ = ["-std=c++17", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DVH_GUIDED"]
BUILDS["guided"] = [["clang++", "-O2", "-fsanitize=fuzzer"] + FUZZ]
BUILDS["guidedsan"] = [["clang++", "-O1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + FUZZ]
BUILD_PREFIX = {}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:"
                    "allocator_may_return_null=0:handle_abort=0:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
})


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or ENV, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def compile_build(name, drivers, outdir, pool):
    """drivers: [(source, extra flags)]; returns ([binary per driver], log)"""
    errors = ""
    sources = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    if not sources:
        return None, "no sources in %s/src" % REPO
    for idx, flags in enumerate(BUILDS[name]):
        d = os.path.join(outdir, "%s%d" % (name, idx))
        os.makedirs(d, exist_ok=True)
        base = flags + WARN + ["-I" + os.path.join(REPO, "inc"), "-I" + os.path.join(HERE, "harness")]
        units = [(os.path.join(HERE, "harness", dr), ex, os.path.join(d, "driver%d.o" % i)) for i, (dr, ex) in enumerate(drivers)]
        lib = sources + ([os.path.join(HERE, "harness", "custom_alloc.cpp")] if name == "custom" else [])
        units += [(s, [], os.path.join(d, "lib%d_%s.o" % (i, os.path.basename(s)))) for i, s in enumerate(lib)]
        jobs = [(s, o, pool.submit(run, base + ex + ["-c", s, "-o", o], 600)) for s, ex, o in units]
        ok = True
        for s, o, j in jobs:
            rc, out = j.result()
            if rc != 0:
                ok = False
                errors += "--- %s %s\n%s\n" % (name, s, out[-3000:])
        exes = []
        for i in range(len(drivers) if ok else 0):
            exe = os.path.join(d, "driver%d" % i)
            rc, out = run(flags + [jobs[i][1]] + [o for _, o, _ in jobs[len(drivers):]] + ["-o", exe, "-lpthread", "-ldl"], 600)
            if rc != 0:
                ok = False
                errors += out[-3000:]
            exes.append(exe)
        if ok:
            return exes, ""
    return None, errors


def known_findings(prop):
    res = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def parse_witness(out):
    m = re.search(r"^VH-(VIOLATION|DEATH) key=(\S+) build=(\S+) section=(.*?) case=(\d+) seed=(\d+) op=(.*)$", out, re.M)
    if not m:
        return None
    detail = out[m.start():m.start() + 3000] if m.group(1) == "VIOLATION" else out[max(0, m.start() - 4000):m.end()]
    key = m.group(2)
    if m.group(1) == "DEATH":
        key = "%s@%s:%s" % (key, m.group(4), m.group(7).strip())
    return {"kind": m.group(1), "key": key, "build": m.group(3), "section": m.group(4), "case": int(m.group(5)),
            "seed": int(m.group(6)), "op": m.group(7), "detail": detail}


def guided_command(exe, seconds, seed, extra):
    return [exe, "-use_value_profile=1", "-max_len=2048", "-reload=1", "-timeout=100", "-rss_limit_mb=3000", "-max_total_time=%d" % seconds, "-seed=%d" % seed, "-verbosity=1"] + extra


def guided(kind, exe, seconds, seed, outdir, known, prop):
    """run the fuzzer in NCPU processes on one shared corpus; returns (witnesses, what was covered, errors)"""
    import random
    base = os.path.join(outdir, "fuzz")
    corpus = os.path.join(base, "corpus")
    os.makedirs(corpus)
    rnd = random.Random("%s %d" % (prop, seed))
    for i in range(96):
        with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
            f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([16, 48, 128, 400, 1000]))))

    def one(k):
        art = os.path.join(base, "p%d" % k)
        os.makedirs(art)
        env = dict(ENV, VH_OUT=os.path.join(base, "p%d.json" % k), VH_BUILD=kind, VH_KNOWN=",".join(k_ for k_, _ in known))
        rc, text = run(guided_command(exe, seconds, seed * 1000 + k + 1, ["-artifact_prefix=" + art + "/", corpus]), seconds + 300, env)
        return art, rc, text

    witnesses, errors = [], []
    cov = {"processes": NCPU, "seconds": seconds, "executions": 0, "edges": 0, "features": 0, "cases_per_section": {}, "events": {}}
    with cf.ThreadPoolExecutor(NCPU) as pool:
        for art, rc, text in pool.map(one, range(NCPU)):
            m = re.findall(r"^#(\d+)\s.*?cov: (\d+) ft: (\d+)", text, re.M)
            if m:
                cov["executions"] += int(m[-1][0])
                cov["edges"] = max(cov["edges"], int(m[-1][1]))
                cov["features"] = max(cov["features"], int(m[-1][2]))
            try:
                data = json.load(open(art + ".json"))
                for k, v in data["sections"].items():
                    cov["cases_per_section"][k] = cov["cases_per_section"].get(k, 0) + v
                for k, v in data["counters"].items():
                    cov["events"][k] = cov["events"].get(k, 0) + v
            except (OSError, ValueError):
                pass
            if rc == 0:
                continue
            found = sorted(os.listdir(art))
            hit = False
            for name in found:
                # judged by running the input alone once more: slow or memory hungry neighbours must not matter
                path = os.path.join(art, name)
                rc2, text2 = run([exe, "-timeout=100", "-rss_limit_mb=3000", "-artifact_prefix=" + art + "/again-", path], 300, dict(ENV, VH_BUILD=kind))
                if rc2 == 0 or "again-" in name:
                    continue
                hit = True
                w = parse_witness(text2) or {"kind": "DEATH", "key": "%s@guided" % name.split("-")[0], "build": kind, "section": "(guided)", "case": 0, "seed": seed, "op": "",
                                             "detail": text2[-5000:]}
                w["tape"], w["mult"], w["driver"] = open(path, "rb").read().hex(), 1, 0
                witnesses.append(w)
            if not hit and not found:
                errors.append("guided process ended with %s: %s" % (rc, text[-1500:]))
    return witnesses, cov, errors


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        log("usage: check.py <property> [quick|thorough|--replay FILE]")
        return 2
    prop = sys.argv[1]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if args and args[0] == "--replay":
        replay = json.load(open(args[1]))
        tier = replay.get("tier", "quick")
    elif args:
        tier = args[0]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = CHECKS[prop]
    t0 = time.time()
    outdir = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    try:
        return decide(prop, cfg, tier, seed, outdir, t0, replay)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def decide(prop, cfg, tier, seed, outdir, t0, replay):
    known = known_findings(prop)
    builds = dict(cfg["builds"])
    gkind = cfg.get("guided", "guided")
    gsec = 0 if not gkind else cfg.get("guided_s", (22, 600))[0 if tier == "quick" else 1]
    if replay:
        builds = {replay["build"]: builds.get(replay["build"], (1, 1))}
    elif gsec:
        builds[gkind] = (0, 0)
    drivers = [(cfg["driver"], cfg.get("flags", []), 1, None)] + cfg.get("also", [])  # (source, flags, multiplier, builds)
    if replay:
        drivers = [drivers[replay.get("driver", 0)]]
    exes = {}
    with cf.ThreadPoolExecutor(NCPU) as pool, cf.ThreadPoolExecutor(len(builds)) as outer:
        futs = {b: outer.submit(compile_build, b, [(d[0], d[1]) for d in (drivers[:1] if b == gkind else drivers) if replay or not d[3] or b in d[3]], outdir, pool) for b in builds}
        for b, f in futs.items():
            exe, err = f.result()
            if not exe:
                log(err)
                log("ERROR property=%s: build '%s' failed" % (prop, b))
                return 2
            exes[b] = exe
    t_build = time.time() - t0

    def cmd(b, d, shard, shards, mult, out, sd):
        c = BUILD_PREFIX.get(b, []) + [exes[b][d], "--seed", str(sd), "--mult", str(mult), "--shard", str(shard), "--shards", str(shards), "--tier", tier,
             "--out", out, "--build", b]
        for k, _ in known:
            c += ["--known", k]
        return c

    if replay and "tape" in replay:
        path = os.path.join(outdir, "tape")
        open(path, "wb").write(bytes.fromhex(replay["tape"]))
        rc, out = run([exes[replay["build"]][0], "-timeout=100", path], 600, dict(ENV, VH_BUILD=replay["build"]))
        log(out[-8000:])
        return 1 if rc not in (0, None) else (2 if rc is None else 0)
    if replay:
        c = cmd(replay["build"], 0, 0, 1, replay["mult"], os.path.join(outdir, "r.json"), replay["seed"])
        c += ["--section", replay["section"], "--case", str(replay["case"])]
        rc, out = run(c, 600)
        log(out[-8000:])
        return 1 if rc not in (0, None) else (2 if rc is None else 0)

    guided_exe = exes.pop(gkind)[0] if gsec else None
    builds.pop(gkind, None) if gsec else None
    limit = 420 if tier == "quick" else 3 * 3600
    work = []
    for b, m in builds.items():
        mult = m[0] if tier == "quick" else m[1]
        shards = cfg.get("shards", NCPU)
        for d, (_, _, dm, _) in enumerate(x for x in drivers if not x[3] or b in x[3]):
            for s in range(shards):
                work.append((b, d, s, shards, max(1, int(mult * dm)), os.path.join(outdir, "%s.%d.%d.json" % (b, d, s))))

    def one(w):
        b, d, s, shards, mult, out = w
        for attempt in (0, 1):
            rc, text = run(cmd(b, d, s, shards, mult, out, seed), limit)
            if rc is not None:
                break
        return w, rc, text

    results = []
    workers = cfg.get("workers", NCPU)
    with cf.ThreadPoolExecutor(workers) as pool:
        futs = [pool.submit(one, w) for w in work]
        for f in cf.as_completed(futs):
            results.append(f.result())

    total = {"evaluations": 0, "distinct": 0}
    counters, sections, known_hits, samples, per_build, digests = {}, {}, {}, [], {}, {}
    witnesses, errors = [], []
    for (b, dnr, s, shards, mult, out), rc, text in sorted(results, key=lambda r: r[0][:3]):
        data = None
        if os.path.exists(out):
            try:
                data = json.load(open(out))
            except ValueError:
                pass
        for m in re.finditer(r"^VH-DIGEST (\S+) (\S+)$", text, re.M):
            digests.setdefault((s, "%d:%s" % (dnr, m.group(1))), {})[b] = m.group(2)
        w = parse_witness(text)
        if rc == 0 and data and data["verdict"] == "held":
            pass
        elif w:
            w["mult"], w["driver"] = mult, dnr
            witnesses.append(w)
        elif rc is None:
            errors.append("build %s driver %d shard %d timed out twice after %d s" % (b, dnr, s, limit))
        elif "WARNING: ThreadSanitizer" in text or "ERROR: AddressSanitizer" in text or "runtime error:" in text:
            witnesses.append({"kind": "DEATH", "key": "sanitizer@unknown:", "build": b, "section": "(unknown)", "case": 0, "seed": seed,
                              "op": "", "mult": mult, "driver": dnr, "detail": text[-4000:]})
        else:
            errors.append("build %s shard %d ended with %s:\n%s" % (b, s, rc, text[-2000:]))
        if data:
            total["evaluations"] += data["evaluations"]
            total["distinct"] += data["distinct"] if dnr == 0 and b == list(builds)[0] else 0
            pb = per_build.setdefault(b, {"evaluations": 0, "distinct_nontrivial": 0})
            pb["evaluations"] += data["evaluations"]
            pb["distinct_nontrivial"] += data["distinct"]
            for k, v in data["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in data["sections"].items():
                sections[k] = sections.get(k, 0) + v
            for k, v in data["known_hits"].items():
                known_hits[k] = known_hits.get(k, 0) + v
            for x in data["samples"]:
                if len(samples) < 12 and x not in samples and len([1 for y in samples if y[:1] == x[:1]]) < 12:
                    samples.append(x)

    # digests: all builds have to agree on what they observed
    for (s, name), d in sorted(digests.items()):
        if len(set(d.values())) > 1:
            vals = sorted(d.items())
            witnesses.append({"kind": "VIOLATION", "key": "digest-mismatch", "build": vals[0][0], "section": name, "case": s, "seed": seed,
                              "op": "", "mult": 1, "detail": "builds disagree on section %s shard %d: %s" % (name, s, vals)})

    # hangs have to be reproducible to count
    confirmed = []
    for w in witnesses:
        if w["key"].startswith("no-progress") and w["section"] not in ("(startup)", "(between sections)"):
            c = cmd(w["build"], w.get("driver", 0), 0, 1, w["mult"], os.path.join(outdir, "hang.json"), seed) + ["--section", w["section"], "--case", str(w["case"])]
            rc, text = run(c, 300)
            if rc == 0:
                errors.append("watchdog fired but the case alone terminates: %s" % w["detail"][-500:])
                continue
        confirmed.append(w)
    witnesses = confirmed

    # C23, C24: a failure that the default configuration / a sequential run shows as well belongs to another property
    explained, default_exe, verdicts = [], {}, {}
    for w in list(witnesses):
        if cfg.get("explain") and w["key"] not in cfg["own_keys"] and not any(t in w["detail"] for t in cfg["own_texts"]) \
                and w["section"] not in ("(unknown)", "(startup)", "(between sections)"):
            c = None
            sect = ["--section", w["section"], "--case", str(w["case"])]
            if cfg["explain"] == "sequential":
                c, env = cmd(w["build"], w["driver"], 0, 1, w["mult"], os.path.join(outdir, "x.json"), seed) + sect, dict(ENV, VH_SEQ="1")
            else:
                b0, env = "sang", ENV  # same compiler as the other configurations
                src = [x for x in drivers if not x[3] or w["build"] in x[3]][w["driver"]]
                if w["driver"] not in default_exe:
                    with cf.ThreadPoolExecutor(NCPU) as pool:
                        default_exe[w["driver"]] = compile_build(b0, [(src[0], src[1])], os.path.join(outdir, "explain%d" % w["driver"]), pool)[0]
                ex = default_exe[w["driver"]]
                if ex:
                    c = cmd(w["build"], w["driver"], 0, 1, w["mult"], os.path.join(outdir, "x.json"), seed) + sect
                    c[c.index(exes[w["build"]][w["driver"]])] = ex[0]
            if c:
                v = verdicts.setdefault((w["build"], w["driver"], w["key"]), [])
                if len(v) < 2 or not all(v):  # several shards with the same failure: two samples settle it
                    rc, text = run(c, 300, env)
                    v.append(rc not in (0, None) and bool(parse_witness(text) or w["kind"] == "DEATH"))
                if v[-1]:
                    explained.append("%s in build %s driver %d section '%s'" % (w["key"], w["build"], w["driver"], w["section"]))
                    witnesses.remove(w)
    if explained:
        log("note: not a violation of %s, the default configuration or a sequential run fails alike: %s" % (prop, "; ".join(sorted(set(explained)))[:1500]))

    gcov = None
    if guided_exe and not witnesses and not errors:
        gw, gcov, ge = guided(gkind, guided_exe, gsec, seed, outdir, known, prop)
        witnesses += gw
        for e in ge:  # says nothing about the code
            log("note: " + e)
        total["evaluations"] += gcov["executions"]

    for k, what in known:
        hit = known_hits.get(k, 0)
        for w in list(witnesses):
            if w["key"] == k:
                witnesses.remove(w)
                hit += 1
        if hit:
            log("KNOWN-FINDING: property=%s %s" % (prop, what))

    missing = [] if explained else [(k, n, counters.get(k, 0)) for k, n in cfg.get("require", {}).items() if counters.get(k, 0) < n]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"], "distinct_nontrivial": total["distinct"], "rule": cfg["rule"], "samples": samples or ["(none)"],
            "events": counters, "cases_per_section": sections, "per_build": per_build, "builds": {b: " ".join(BUILDS[b][0]) for b in builds},
            "digests_compared": len(digests), "guided": gcov or "not run", "explained_elsewhere": explained[:20], "build_s": round(t_build, 1),
        },
        "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(witnesses),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if witnesses:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        for w in witnesses:
            if w["key"] in seen:
                continue
            seen.add(w["key"])
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, len(seen)))
            w["property"], w["tier"] = prop, tier
            w["replay_cmd"] = "python3 check.py %s --replay %s" % (prop, path)
            json.dump(w, open(path, "w"), indent=1)
            log(w["detail"].strip()[:2500])
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        log("\n".join(errors))
        log("ERROR property=%s: inconclusive" % prop)
        return 2
    if missing:
        log("ERROR property=%s: too few events observed: %s" % (prop, missing))
        return 2
    log("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (
        prop, tier, seed, total["evaluations"], total["distinct"], wall, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main())
