#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Builds harness/<property>.cpp with the sources of the repository's working tree, in a directory of its own, runs the
generated-input search and writes evidence/<property>.json.
Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed (no verdict).
"""
import argparse, concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-D_GLIBCXX_ASSERTIONS"]
PLAIN = ["-O2", "-g1"]
TSAN = ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]


def directives(src):
    d = {}
    with open(src) as f:
        for line in f:
            m = re.match(r"// BUILD: (.*)", line)
            if m:
                for w in m.group(1).split():
                    k, _, v = w.partition("=")
                    d[k] = v or True
    return d


def repo_sources():
    out = []
    for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        out.append(f)
    return out


def tree_hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + repo_sources()
    files += sorted(glob.glob(VERIF + "/harness/*"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def compile_one(job):
    cmd, obj = job
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return obj


_tsan = None


def tsan_works():
    """The thread sanitizer cannot run where it may not lay out its memory; then the address sanitizer has to do"""
    global _tsan
    if _tsan is None:
        d = tempfile.mkdtemp(prefix="verif_tsan_")
        try:
            with open(d + "/t.cpp", "w") as f:
                f.write("#include <thread>\nint main() { int x = 0; std::thread t( [&] { x = 1; } ); t.join(); return x - 1; }\n")
            ok = subprocess.run(["clang++"] + TSAN + [d + "/t.cpp", "-o", d + "/t"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            _tsan = ok and subprocess.run([d + "/t"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _tsan


def build(src, d, out, fuzz=False):
    """Compiles src with the repository's sources; returns the path of the binary."""
    os.makedirs(out, exist_ok=True)
    mode = PLAIN if d.get("plain") else TSAN if d.get("tsan") and tsan_works() else list(SAN)
    cxx = "clang++"
    link_mode = [f for f in mode if f.startswith("-fsanitize") or f.startswith("-fno-")]
    if fuzz:
        with open(out + "/allow", "w") as f:  # coverage of the code under test, not of the harness
            f.write("src:*\nfun:*6Seldon*\n")
        mode = mode + ["-fsanitize=fuzzer-no-link"] + (["-DPBT_FUZZ", "-fsanitize-coverage-allowlist=" + out + "/allow"] if fuzz == "choices" else [])
        link_mode = link_mode + ["-fsanitize=fuzzer"]
    base = [cxx, "-std=c++20", "-w", "-I" + REPO + "/include", "-I" + VERIF + "/harness",
            "-include", VERIF + "/harness/fmt_optional_shim.hpp"] + mode
    jobs = []
    for i, f in enumerate(repo_sources()):
        obj = "%s/r%d.o" % (out, i)
        extra = []
        if os.path.basename(f) == "main.cpp":
            if not d.get("main"):
                continue
            extra = ["-Dmain=seldon_main"]
        jobs.append((base + extra + ["-c", f, "-o", obj], obj))
    hobj = out + "/harness.o"
    hx = ["-DVERIF_FUZZ"] if fuzz else []
    jobs.insert(0, (base + hx + ["-c", src, "-o", hobj], hobj))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        objs = list(ex.map(compile_one, jobs))
    if d.get("archive"):  # the harness uses the sources as a library, the way an embedding program does
        own = [o for j, o in jobs if j[-3] == src or j[-3].endswith("/main.cpp")]
        lib = out + "/libseldon.a"
        r = subprocess.run(["ar", "rcs", lib] + [o for o in objs if o not in own], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("ar: " + r.stdout[-4000:])
        objs = own + [lib]
    exe = out + "/check"
    r = subprocess.run([cxx] + link_mode + objs + ["-lfmt", "-lpthread", "-o", exe], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("link: " + r.stdout[-4000:])
    return exe


def cached_build(src, d, out, fuzz=False):
    cache = os.environ.get("VERIF_CACHE")  # development only; a registered check never sets it
    if not cache:
        return build(src, d, out, fuzz)
    key = tree_hash(src + str(sorted(d.items())) + str(fuzz) + open(__file__).read())
    exe = os.path.join(cache, key)
    if not os.path.exists(exe):
        os.makedirs(cache, exist_ok=True)
        b = build(src, d, out, fuzz)
        shutil.copy(b, exe + ".tmp%d" % os.getpid())
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def known_findings():
    """id -> (property, text) of the findings that are recorded and not repaired"""
    out = {}
    with open(VERIF + "/KNOWN_FINDINGS.txt") as f:
        for line in f:
            m = re.match(r"finding: id=(\S+) property=(\S+) (.*)", line)
            if m:
                out[m.group(1)] = (m.group(2), m.group(3).strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", default="1")
    ap.add_argument("--facet")
    ap.add_argument("--replay")
    ap.add_argument("--fuzz", type=int, help="seconds of coverage-guided search over the choices (default: 300 in the thorough tier)")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    src = "%s/harness/%s.cpp" % (VERIF, pid)
    d = directives(src)
    rundir = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    fast = scratch_dir(pid) or rundir
    try:
        return run(a, pid, src, d, rundir, fast, t0)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
        shutil.rmtree(fast, ignore_errors=True)


def scratch_dir(pid):
    """The cases write many small files: a memory file system, when it has room"""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 256 << 20:
            return tempfile.mkdtemp(prefix="verif_%s_" % pid, dir="/dev/shm")
    except OSError:
        pass
    return None


def run(a, pid, src, d, rundir, fast, t0):
    try:
        exe = cached_build(src, d, rundir + "/build")
    except BuildError as e:
        print("BUILD FAILED (no verdict)\n%s" % e)
        return 2
    t_build = time.time() - t0
    if a.replay and a.replay.endswith(".fuzz"):
        exe = cached_build("%s/harness/%s_fuzz.cpp" % (VERIF, pid), d, rundir + "/fuzzbuild", fuzz=True)
        return 1 if subprocess.run([exe, os.path.abspath(a.replay)], cwd=rundir, env=dict(os.environ, VERIF_FUZZ_DIR=fast)).returncode else 0
    if a.replay:
        return subprocess.run([exe, "--replay", os.path.abspath(a.replay), "--tmp", fast]).returncode
    out = rundir + "/out.json"
    replay_dir = VERIF + "/replays"
    os.makedirs(replay_dir, exist_ok=True)
    replay = "%s/%s.txt" % (replay_dir, pid)
    budget = "420" if a.tier == "quick" else "3000"
    cmd = [exe, "--tier", a.tier, "--seed", str(a.seed), "--out", out, "--replay-out", replay, "--tmp", fast,
           "--budget", budget, "--scale", a.scale]
    if a.facet:
        cmd += ["--facet", a.facet]
    env = dict(os.environ, VERIF_HARNESS=VERIF + "/harness", VERIF_REPO_DIR=REPO)
    rc = subprocess.run(cmd, env=env).returncode
    if rc not in (0, 1) or not os.path.exists(out):
        print("the harness ended with %d (no verdict)" % rc)
        return 2
    with open(out) as f:
        r = json.load(f)
    fuzz_cov = None
    violated, msg = r["violated"], r["message"]
    if not violated and d.get("fuzz") and a.tier == "thorough":
        fuzz_cov, fv = fuzz_campaign(a, pid, src, d, rundir, fast)
        if fv:
            violated, msg, replay = True, fv[0], fv[1]
    secs = a.fuzz if a.fuzz is not None else 300 if a.tier == "thorough" else 0
    if not violated and secs and not (d.get("plain") or d.get("tsan") or d.get("nofuzz")):
        cov, fv = fuzz_choices(a, src, d, rundir, fast, exe, replay, secs)
        fuzz_cov = (fuzz_cov or []) + [cov]
        if fv:
            violated, msg = True, fv
    lines = []
    known = known_findings()
    for m in r["manifest"]:
        fid, _, what = m.partition("\t")
        if fid in known and known[fid][0] == pid:
            lines.append("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[fid][1], fid))
        else:
            violated, msg = True, "%s: %s" % (fid, what)
            with open(replay, "w") as f:
                f.write("property %s\nprobe %s\n# %s\n" % (pid, fid, what))
    cov = {
        "evaluations": r["evaluations"],
        "distinct_nontrivial": r["distinct_nontrivial"],
        "rule": r["rule"],
        "samples": r["samples"][:12],
        "facets": r["facets"],
        "classes": r["labels"],
        "stopped_by_time_budget": r["truncated"],
        "build_s": round(t_build, 1),
    }
    if fuzz_cov:
        cov["fuzzing"] = fuzz_cov
    if violated:
        cov["failure"] = msg
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
        "assumptions": ["the harness builds the repository's sources with clang 18 (%s) and fmt 9.1; see DESIGN.md"
                        % ("-O2" if d.get("plain") else "thread sanitizer" if d.get("tsan") and tsan_works() else "address and undefined behaviour sanitizers")],
        "wall_s": round(time.time() - t0, 1), "violations": 1 if violated else 0,
    }
    if not a.facet:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s" % (
        pid, a.tier, a.seed, r["evaluations"], r["distinct_nontrivial"], time.time() - t0, t_build,
        ", stopped by the time budget" if r["truncated"] else ""))
    if violated:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


def fuzz_choices(a, src, d, rundir, fast, exe, replay, secs):
    """Coverage-guided search (libFuzzer, with value profile) over the choices behind the same property functions, from random
    inputs. What it finds counts when the ordinary binary fails on the same choices, three times of three; it is then shrunk."""
    try:
        fexe = cached_build(src, d, rundir + "/fuzzbuild", fuzz="choices")
    except BuildError as e:
        print("FUZZ BUILD FAILED\n%s" % e)
        sys.exit(2)
    rng = random.Random(a.seed)
    corpus, art, fdir = rundir + "/choices", rundir + "/choices_art/", fast + "/fuzz"
    for x in (corpus, art, fdir):
        os.makedirs(x)
    for k in range(400):
        with open("%s/%03d" % (corpus, k), "wb") as f:
            f.write(bytes([k % 256]) + rng.randbytes(rng.choice((4, 16, 64, 256, 1024))))
    env = dict(os.environ, VERIF_FUZZ_DIR=fdir, VERIF_FUZZ_FACETS=a.facet or (d.get("fuzzfacets") or ""), VERIF_HARNESS=VERIF + "/harness",
               VERIF_REPO_DIR=REPO, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_abort=0")
    log = rundir + "/choices.log"
    with open(log, "w") as lf:
        subprocess.run([fexe, "-seed=%d" % (a.seed + 1), "-max_total_time=%d" % secs, "-fork=8", "-ignore_ooms=1", "-ignore_timeouts=1", "-ignore_crashes=1",
                        "-timeout=60", "-rss_limit_mb=3000", "-max_len=3000", "-use_value_profile=1", "-detect_leaks=0", "-artifact_prefix=" + art, corpus],
                       stdout=lf, stderr=subprocess.STDOUT, cwd=rundir, env=env)
    text = open(log, errors="replace").read()
    n, c = [int(x) for x in re.findall(r"^#(\d+):", text, re.M)], re.findall(r"cov: (\d+)", text)
    stats = [list(map(int, open(f).read().split())) for f in glob.glob(fdir + "/stats_*") if os.path.getsize(f)]
    cov = {"over": "choices", "seconds": secs, "executions": max(n) if n else 0, "nontrivial": sum(x[1] for x in stats), "coverage_edges": int(c[-1]) if c else 0,
           "corpus_size": len(os.listdir(corpus))}
    if os.environ.get("VERIF_FUZZ_LOG"):
        shutil.copy(log, os.environ["VERIF_FUZZ_LOG"])
    for f in sorted(glob.glob(fdir + "/fail_*.txt"))[:20]:
        run = lambda more: subprocess.run([exe, "--replay", f, "--tmp", fast] + more, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        if all(run([]).returncode == 1 for _ in range(3)):
            out = run(["--shrink", "--replay-out", replay]).stdout
            return cov, "found by fuzzing: " + (out.split("\n") + ["", ""])[1]
    return cov, None


def fuzz_campaign(a, pid, src, d, rundir, fast):
    """Coverage-guided search over the bytes behind the choice sequences (libFuzzer), from an empty corpus and from the
    repository's own examples; the target is the same property function."""
    secs = int(d.get("fuzz_seconds", 240))
    fsrc = "%s/harness/%s_fuzz.cpp" % (VERIF, pid)
    try:
        exe = cached_build(fsrc, d, rundir + "/fuzzbuild", fuzz=True)
    except BuildError as e:
        print("FUZZ BUILD FAILED\n%s" % e)
        sys.exit(2)
    cov = []
    env = dict(os.environ, VERIF_FUZZ_DIR=fast)
    for k, seeds in enumerate((None, sorted(glob.glob("%s/harness/corpus/%s/*" % (VERIF, pid))))):
        corpus, art = "%s/corpus%d" % (rundir, k), "%s/art%d/" % (rundir, k)
        os.makedirs(corpus), os.makedirs(art)
        for s in seeds or []:
            shutil.copy(s, corpus)
        log = "%s/fuzz%d.log" % (rundir, k)
        with open(log, "w") as lf:
            p = subprocess.run([exe, "-seed=%d" % (a.seed + 1 + k), "-max_total_time=%d" % secs, "-fork=8", "-ignore_ooms=1",
                                "-ignore_timeouts=1", "-timeout=60", "-rss_limit_mb=3000", "-max_len=4096", "-print_final_stats=1",
                                "-artifact_prefix=" + art, corpus],
                               stdout=lf, stderr=subprocess.STDOUT, cwd=rundir, env=env)
        text = open(log, errors="replace").read()
        n = [int(x) for x in re.findall(r"^#(\d+):", text, re.M)]
        c = re.findall(r"cov: (\d+)", text)
        cov.append({"corpus": "empty" if not seeds else "%d files" % len(seeds), "executions": max(n) if n else 0,
                    "coverage_edges": int(c[-1]) if c else 0, "corpus_size": len(os.listdir(corpus))})
        crashes = [f for f in sorted(os.listdir(art)) if f.startswith("crash-")]
        for f in crashes:
            fails = sum(subprocess.run([exe, art + f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                       cwd=rundir, env=env).returncode != 0 for _ in range(3))
            if fails == 3:
                dst = "%s/replays/%s.fuzz" % (VERIF, pid)
                shutil.copy(art + f, dst)
                out = subprocess.run([exe, art + f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=rundir, env=env)
                return cov, ("fuzzing: " + out.stdout.decode(errors="replace")[-2500:], dst)
    return cov, None


if __name__ == "__main__":
    sys.exit(main())
