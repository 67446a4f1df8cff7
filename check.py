#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  check.py C05 [--thorough] [--seed N] [--replay FILE] [--scale F] [--sub NAME]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get("SML_REPO", "/repo"))
H = HERE / "harness"
BUILD = Path(os.environ.get("SML_BUILD", HERE / "build"))
EVID = Path(os.environ.get("SML_EVIDENCE", HERE / "evidence"))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=nonnull-attribute,function,pointer-overflow,shift-base"]
ALLOC_WRAP = ["malloc", "calloc", "realloc", "free", "reallocarray", "strdup", "strndup"]
BASE = dict(san=SAN, wrap=ALLOC_WRAP, common=["engine", "model", "mutate", "bridge", "alloc"], defs=[], libdefs=[], server=False, cov=[], so={},
            libs=["-luuid", "-lm"], opt="-O1")

# per property: the binaries it consists of
V = {
    "C01": [dict(cov=["-fsanitize-coverage=trace-pc-guard"], common=BASE["common"] + ["work"],
                 wrap=ALLOC_WRAP + ["__asan_memcpy", "__asan_memmove", "__asan_memset"])],
    "C09": [dict(), dict(name="huge", defs=["-DHUGE_ONLY"], san=[], opt="-O2", wrap=[], common=["engine", "model", "mutate", "bridge", "noalloc"])],
    "C11": [dict(wrap=ALLOC_WRAP + ["read", "select", "poll"])],
    "C12": [dict(wrap=ALLOC_WRAP + ["write", "read", "select", "poll"])],
    "C13": [dict(wrap=ALLOC_WRAP + ["read", "select", "poll"])],
    "C15": [dict(wrap=ALLOC_WRAP + ["write"])],
    "C17": [dict(server=True)],
    "C18": [dict(), dict(name="threads", src="c18t", san=["-fsanitize=thread"], libdefs=["-O0"], wrap=[], common=["engine", "model", "mutate", "bridge", "noalloc"])],
    "C20": [dict(wrap=ALLOC_WRAP + ["getrandom"]),
            dict(name="nouuid", wrap=ALLOC_WRAP + ["getrandom"], libdefs=["-DSML_NO_UUID_LIB"], libs=["-lm"]),
            dict(name="threads", defs=["-DTHREADS_ONLY"], libdefs=["-O0", "-DSML_NO_UUID_LIB"], libs=["-lm"], san=["-fsanitize=thread"],
                 wrap=[], common=["engine", "model", "mutate", "bridge", "noalloc"]),
            dict(name="threads-uuid", defs=["-DTHREADS_ONLY"], libdefs=["-O0"], san=["-fsanitize=thread"], wrap=[],
                 common=["engine", "model", "mutate", "bridge", "noalloc"])],
    "C23": [dict(cov=["-fsanitize-coverage=trace-pc-guard"], common=BASE["common"] + ["work"],
                 wrap=ALLOC_WRAP + ["__asan_memcpy", "__asan_memmove", "__asan_memset"]),
            dict(name="huge", defs=["-DHUGE_ONLY"], san=[], libdefs=["-O0"], opt="-O2", wrap=[],
                 common=["engine", "model", "mutate", "bridge", "noalloc"])],
    "C22": [dict(wrap=[], common=["engine", "model", "mutate", "bridge", "noalloc", "c22v"],
                 so=dict(gcc=["gcc", "-std=c99", "-D_GNU_SOURCE", "-O3", "-funsigned-char", "-DNDEBUG", "-DSML_NO_UUID_LIB"],
                         pattern=["clang", "-std=gnu11", "-O0", "-ftrivial-auto-var-init=pattern"]))],
    "C24": [dict(wrap=ALLOC_WRAP + ["read", "select", "poll"]),
            dict(name="nouuid", wrap=ALLOC_WRAP + ["read", "select", "poll"], defs=["-DSML_NO_UUID_LIB"], libdefs=["-DSML_NO_UUID_LIB"], libs=["-lm"])],
}
# coverage-guided campaigns of the thorough tier, FUZZ_TIME seconds for each property
FUZZ = {
    "C01": ["file", "element", "message"],
    "C02": ["file"],
    "C03": ["subset"],
    "C04": ["element"],
    "C05": ["built", "hostile"],
    "C06": ["mutate", "raw"],
    "C07": ["decode"],
    "C08": ["decode"],
    "C09": ["create", "hex"],
    "C10": ["double", "text"],
    "C11": ["stream"],
    "C12": ["send"],
    "C13": ["stream"],
    "C14": ["dzg", "time"],
    "C15": ["history"],
    "C16": ["random"],
    "C18": ["repeat"],
    "C19": ["legal", "hostile", "raw"],
}
NPROC = os.cpu_count() or 8
FUZZ_TIME = 240
THOROUGH_SCALE = 0.5


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(str(p).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def compile_all(jobs):
    """jobs: list of (source, cmd, object); object names carry a digest of everything that went in"""
    def one(j):
        src, cmd, obj = j
        if obj.exists():
            return None
        tmp = obj.with_suffix(".tmp%d" % os.getpid())
        r = sh(cmd + ["-c", str(src), "-o", str(tmp)])
        if r.returncode:
            return "%s:\n%s" % (src, r.stdout[-4000:])
        os.replace(tmp, obj)
        return None
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))


def prepare(prop, variant, fuzz=False):
    v = dict(BASE)
    v.update(variant)
    name = prop.lower() + ("-" + v["name"] if v.get("name") else "") + ("-fuzz" if fuzz else "")
    src = H / (v.get("src", prop.lower()) + ".cpp")
    bd = BUILD / "obj"
    bd.mkdir(parents=True, exist_ok=True)
    inc = ["-I", str(REPO / "sml/include")]
    san = list(v["san"])
    common_h = list(H.glob("*.h")) + list(H.glob("*.inc")) + list((REPO / "sml/include").rglob("*.h"))
    lib_h = list((REPO / "sml").rglob("*.h"))
    jobs, objs = [], []

    def add(source, cmd, deps):
        o = bd / ("%s-%s.o" % (source.stem, digest(deps + [source], cmd)))
        jobs.append((source, cmd, o))
        objs.append(str(o))
    flags = ["-g", v["opt"], "-fno-omit-frame-pointer"] + san
    cov = ["-fsanitize=fuzzer-no-link"] if fuzz else v["cov"]
    for s in sorted((REPO / "sml/src").glob("*.c")):
        add(s, ["clang", "-std=gnu11", "-w"] + flags + cov + inc + v["libdefs"], lib_h)
    if v["server"]:
        ex_h = list((REPO / "examples").glob("*.h")) + lib_h
        add(REPO / "examples/sml_server.c",
            ["clang", "-std=gnu11", "-w", "-Dmain=sml_server_main"] + flags + cov + inc, ex_h)
    warn = ["-Wall", "-Wextra", "-Wno-unused-parameter"]
    hx = ["clang++", "-std=c++17"] + warn + flags + inc + v["defs"]
    if v["so"]:
        hx.append("-DVARIANTS=" + ",".join('"%s"' % n for n in v["so"]))
    for c in v["common"]:
        add(H / (c + ".cpp"), hx + (["-DFUZZ_MAIN"] if fuzz and c in ("engine", "work") else []), common_h)
    add(src, hx, common_h)
    exe = BUILD / name
    link = ["clang++"] + flags + (["-fsanitize=fuzzer"] if fuzz else []) + objs + v["libs"] + ["-lpthread"]
    link += ["-Wl," + ",".join("--wrap=" + w for w in v["wrap"])] if v["wrap"] else []
    link += ["-rdynamic", "-ldl"] if v["so"] else []
    links = [link + ["-o", str(exe)]]
    for n, cc in v["so"].items():
        # the library compiled otherwise, with what drives it, as a shared object of its own
        objs = []
        for s in sorted((REPO / "sml/src").glob("*.c")):
            add(s, cc + ["-w", "-g", "-fPIC"] + inc, lib_h)
        for c in ("model", "bridge", "c22v"):
            add(H / (c + ".cpp"), ["clang++", "-std=c++17", "-O1", "-g", "-fPIC", "-DVARIANT_RUN=variant_run"] + warn + inc, common_h)
        so = "%s-%s.so" % (exe, n)
        links.append(["clang++", "-shared", "-Wl,-Bsymbolic"] + objs + ["-luuid", "-lm", "-o", so])
    return jobs, links, exe


def build(prop, fuzz=False):
    plans = [prepare(prop, v, fuzz) for v in V.get(prop, [dict()])]
    if fuzz:
        plans = plans[:1]
    seen, jobs = set(), []
    for p in plans:
        for j in p[0]:
            if j[2] not in seen:
                seen.add(j[2])
                jobs.append(j)
    # the slow ones first
    jobs.sort(key=lambda j: j[0].suffix != ".cpp")
    compile_all(jobs)
    for link in [l for p in plans for l in p[1]]:
        r = sh(link)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
    return [p[2] for p in plans]


def known_findings(prop):
    """lines 'known: property=<id> key=<key> <what>' of the known-findings file"""
    out = {}
    f = HERE / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            if l.startswith("known: property=%s " % prop):
                key = l.split("key=", 1)[1].split()[0]
                out[key] = l.split("key=" + key, 1)[1].strip()
    return out


def run_fuzz(prop, sub, secs, seed, work, rdir):
    """a coverage-guided campaign of a given time; returns (stats, violation, replay)"""
    exe = build(prop, fuzz=True)[0]
    corpus = work / ("corpus-" + sub)
    procs = []
    for k in range(NPROC):
        c = corpus / str(k)
        c.mkdir(parents=True, exist_ok=True)
        env = dict(os.environ, FUZZ_SUB=sub, FUZZ_CRASH=str(work / "fuzz"), UBSAN_OPTIONS="print_stacktrace=0")
        log = open(work / ("fuzz-%s-%d.log" % (sub, k)), "w+")
        args = [str(exe), str(c), "-max_total_time=%d" % max(1, secs), "-seed=%d" % (seed * 100 + k + 1), "-max_len=2048",
                "-len_control=20", "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1",
                "-artifact_prefix=" + str(c) + "-", "-handle_segv=1"]
        procs.append((subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log, env=env,
                                       cwd=str(work)), log))
    ev, cov, bad = 0, 0, []
    for p, log in procs:
        try:
            rc = p.wait(timeout=3000)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = 0
        log.seek(0)
        t = log.read()
        for l in t.splitlines():
            if l.startswith("stat::number_of_executed_units:"):
                ev += int(l.split()[-1])
            if " cov: " in l:
                cov = max(cov, int(l.split(" cov: ")[1].split()[0]))
        if rc:
            bad.append((p.pid, rc, t[-3000:]))
    st = dict(sub=sub + " (libFuzzer)", evaluations=ev, edges_covered=cov)
    for pid, rc, tail in bad:
        rep = Path(str(work / "fuzz") + ".%d" % pid)
        if not rep.exists():
            continue
        dst = rdir / ("%s-%s-fuzz.replay" % (prop, sub))
        shutil.copyfile(rep, dst)
        why = next((l[4:] for l in rep.read_text().splitlines() if l.startswith("why ")), "crash")
        return st, why, dst
    return st, None, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true", default=os.environ.get("VERIF_TIER") == "thorough")
    ap.add_argument("--quick", dest="thorough", action="store_false")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--sub")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    try:
        exes = build(prop)
    except BuildError as e:
        print("check.py: the build failed\n%s" % e, file=sys.stderr)
        return 3
    t_build = time.time() - t0
    if a.replay:
        text = Path(a.replay).read_text()
        variant = next((l.split()[1] for l in text.splitlines() if l.startswith("binary ")), None)
        for e in exes:
            if variant is None or e.name == variant:
                r = subprocess.run([str(e), "--replay", a.replay, "--work", str(BUILD)])
                if r.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (prop, a.replay))
                if r.returncode < 2:
                    return r.returncode
        return 3
    EVID.mkdir(parents=True, exist_ok=True)
    rdir = EVID / "replays"
    rdir.mkdir(parents=True, exist_ok=True)
    work = BUILD / ("work-%s-%d" % (prop, os.getpid()))
    work.mkdir(parents=True, exist_ok=True)
    subs, viol, broken = [], None, None
    try:
        for e in exes:
            out = work / (e.name + ".json")
            cmd = [str(e), "--seed", str(a.seed), "--out", str(out), "--scale", str(a.scale * (THOROUGH_SCALE if a.thorough else 1)), "--replay-dir", str(rdir),
                   "--work", str(work)]
            if a.thorough:
                cmd.append("--thorough")
            if a.sub:
                cmd += ["--sub", a.sub]
            r = subprocess.run(cmd, stdin=subprocess.DEVNULL)
            if r.returncode not in (0, 1) or not out.exists():
                broken = "%s ended with status %d" % (e.name, r.returncode)
                break
            for s in json.loads(out.read_text())["subs"]:
                s["binary"] = e.name
                subs.append(s)
                if s["violation"]:
                    p = Path(s["replay"])
                    p.write_text("binary %s\n" % e.name + p.read_text())
                    viol = (s["sub"], s["violation"], s["replay"])
            if viol:
                break
        fz = []
        if a.thorough and not viol and not broken and not a.sub:
            fsubs = FUZZ.get(prop, [])
            for sub in fsubs:
                st, why, rep = run_fuzz(prop, sub, int(FUZZ_TIME * a.scale / len(fsubs)), a.seed, work, rdir)
                if why:
                    # confirm outside the fuzzer
                    ok = all(subprocess.run([str(exes[0]), "--replay", str(rep), "--work", str(work)],
                                            stdout=subprocess.DEVNULL).returncode == 1 for _ in range(3))
                    st["confirmed"] = ok
                    if ok:
                        rep.write_text("binary %s\n" % exes[0].name + rep.read_text())
                        viol = (sub + " (libFuzzer)", why, str(rep))
                fz.append(st)
                if viol:
                    break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if broken:
        print("check.py: " + broken, file=sys.stderr)
        return 3
    kf = known_findings(prop)
    observed = {k for s in subs for k in s["known"]}
    for k in sorted(observed):
        if k in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]))
        else:
            # the harness only notes findings it was told about, so this is a new violation
            p = rdir / ("%s-%s.replay" % (prop, k))
            p.write_text("property %s\nknown-finding key %s is not listed\n" % (prop, k))
            viol = viol or ("known", "unlisted finding " + k, str(p))
    cov = dict(
        evaluations=sum(s["evaluations"] for s in subs) + sum(f["evaluations"] for f in fz),
        distinct_nontrivial=sum(s["nontrivial"] for s in subs),
        rule="; ".join("%s: %s" % (s["sub"], s["rule"]) for s in subs),
        samples=[dict(sub=s["sub"], case=t) for s in subs for t in s["samples"]][:24],
        sub_checks=[{k: s[k] for k in ("sub", "binary", "evaluations", "nontrivial", "wall", "unreproduced", "labels")}
                    for s in subs],
    )
    if fz:
        cov["coverage_guided"] = fz
    ev = dict(property=prop, tier="thorough" if a.thorough else "quick", seed=a.seed, level="exploration", coverage=cov,
              assumptions=["clang 18 with AddressSanitizer and UndefinedBehaviorSanitizer reports memory errors",
                           "the independent SML model in harness/model.cpp is right",
                           "known findings observed: %s" % (", ".join(sorted(observed)) or "none")],
              wall_s=round(time.time() - t0, 2), build_s=round(t_build, 2), violations=1 if viol else 0)
    (EVID / (prop + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
    if viol:
        print("%s/%s: %s" % (prop, viol[0], viol[1]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[2]))
        return 1
    print("%s: held on %d cases (%d distinct non-trivial), build %.1f s, total %.1f s" %
          (prop, cov["evaluations"], cov["distinct_nontrivial"], t_build, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
