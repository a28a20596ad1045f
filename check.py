#!/usr/bin/env python3
"""Builds /repo's working tree with sanitizers and runs one property's search.

usage: check.py ID [--thorough] [--cases N] [--seed N] [--replay FILE] [--setup]
Exit 0: the property held on everything explored.  Exit 1: a violation, with a
"VIOLATION property=<id> replay=<path>" line.  Anything else: an error here.
"""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SHIM = "/opt/vp/shims"
GOENV = {"GOFLAGS": "-mod=readonly", "GOPROXY": "off", "GOTOOLCHAIN": "local", "CGO_ENABLED": "1", "CGO_LDFLAGS": "-lm"}
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift-base,alignment,function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
# what each check needs besides the harness binary: cli, gen (constant generator), go, tsan
NEEDS = json.load(open(os.path.join(HERE, "checks.json")))


def files(d, ext):
    p = os.path.join(REPO, d)
    return sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(ext)) if os.path.isdir(p) else []


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()


def headers():
    out = []
    for d in ("include", "src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs if f.endswith(".h")]
    return out


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        raise SystemExit(2)
    return p.stdout


def obj_jobs(srcs, flags, cc, extra_key):
    """(source, object, command) for each source; objects are named by content."""
    jobs = []
    for s in srcs:
        with open(s, "rb") as f:
            key = hashlib.sha256(f.read() + s.encode() + " ".join(flags + [cc]).encode() + extra_key.encode()).hexdigest()[:24]
        o = os.path.join(BUILD, "o", os.path.basename(s) + "-" + key + ".o")
        jobs.append((s, o, [cc] + flags + ["-c", s]))
    return jobs


def compile_jobs(jobs):
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)

    def one(j):
        s, o, cmd = j
        if not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid()
            run(cmd + ["-o", t])
            os.replace(t, o)
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def link(name, objs, flags, cxx="clang++"):
    out = os.path.join(BUILD, name)
    t = out + ".%d.tmp" % os.getpid()
    run([cxx] + flags + objs + ["-o", t, "-lm", "-lpthread"])
    os.replace(t, out)
    return out


def build(needs):
    hk = tree_hash(headers())
    own = sorted(os.path.join(HERE, "src", f) for f in os.listdir(os.path.join(HERE, "src")))
    ownh = tree_hash([f for f in own if f.endswith(".h")])
    inc = ["-I" + os.path.join(REPO, d) for d in ("include", "src/vm", "src/compiler", "src/cli")] + ["-I" + SHIM, "-I/usr/include/cjson"]
    san = TSAN if "tsan" in needs else ASAN
    lib = files("src/vm", ".c") + files("src/compiler", ".c")
    # unoptimised for the thread sanitizer: an optimiser may hide an access to shared memory
    cfl = ["-g", "-O0" if "tsan" in needs else "-O1", "-w", "-ftrivial-auto-var-init=pattern"] + san + inc
    hfl = ["-std=c++17", "-g", "-O1", "-w"] + (TSAN if "tsan" in needs else []) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "src")]
    jl = obj_jobs(lib, cfl, "clang", hk)
    jh = obj_jobs([f for f in own if f.endswith(".cpp")], hfl, "clang++", hk + ownh)
    jc = obj_jobs(files("src/cli", ".c"), ["-g", "-O1", "-w", "-ftrivial-auto-var-init=pattern", '-DCND_VERSION="0"', '-DCND_GIT_HASH="0"'] + ASAN + inc, "clang", hk) if "cli" in needs else []
    jg = []
    if "gen" in needs:
        g = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(REPO, "src")) for f in fs if f == "gen_bindings.c"]
        g += [os.path.join(REPO, "tools", f) for f in (os.listdir(os.path.join(REPO, "tools")) if os.path.isdir(os.path.join(REPO, "tools")) else []) if f == "gen_bindings.c"]
        jg = obj_jobs(g, ["-g", "-O1", "-w"] + ASAN + inc, "clang", hk)
    objs = compile_jobs(jl + jh + jc + jg)
    a, b, c = len(jl), len(jl) + len(jh), len(jl) + len(jh) + len(jc)
    env = {"PBT_REPO": REPO}
    suf = "-tsan" if "tsan" in needs else ""
    env["PBT"] = link("pbt" + suf, objs[:b], san + ["-Wl,--wrap=malloc,--wrap=realloc"])
    if "cli" in needs:
        env["PBT_CND"] = link_cli(objs[b:c] + objs[:a])
    if "gen" in needs:
        env["PBT_GEN"] = link("gen_bindings", objs[c:], ASAN)
    if "nob" in needs:
        t = os.path.join(BUILD, "nobdrv.%d.tmp" % os.getpid())
        run(["clang", "-g", "-O1", "-w"] + ASAN + ["-I" + REPO, "-I" + os.path.join(REPO, "include"), os.path.join(HERE, "tools", "nobdrv.c"), "-o", t])
        os.replace(t, os.path.join(BUILD, "nobdrv")); env["PBT_NOB"] = os.path.join(BUILD, "nobdrv")
    if "port" in needs:
        build_ports(env, files("src/vm", ".c"))
    if "go" in needs:
        env["PBT_GO"] = build_go(lib)
    return env


def link_cli(objs):
    out = os.path.join(BUILD, "cnd")
    t = out + ".%d.tmp" % os.getpid()
    run(["clang"] + ASAN + objs + ["-o", t, "-lcjson", "-lm"])
    os.replace(t, out)
    return out


def build_ports(env, vm):
    """The runtime for 32-bit WebAssembly (run by node) and by gcc with other choices where the language leaves them open."""
    w = os.path.join(HERE, "wasm")
    inc = ["-I" + os.path.join(REPO, d) for d in ("include", "src/vm")]
    src = [os.path.join(w, "vmdrv.c")] + vm
    a, b = os.path.join(BUILD, "vm.wasm"), os.path.join(BUILD, "vmdrv")
    for out, cmd in ((a, ["clang", "--target=wasm32", "-nostdlib", "-ffreestanding", "-fno-builtin", "-O2", "-fno-math-errno", "-w", "-std=gnu99", "-DVMDRV_WASM", "-isystem", os.path.join(w, "include")] + inc + src +
                      [os.path.join(w, "libc.c"), "-Wl,--no-entry", "-Wl,--allow-undefined", "-Wl,-z,stack-size=262144", "-Wl,--initial-memory=33554432"]),
                     (b, ["gcc", "-O3", "-funsigned-char", "-fshort-enums", "-w", "-std=gnu99"] + inc + src + ["-lm"])):
        t = out + ".%d.tmp" % os.getpid()
        if out == a and subprocess.run(cmd + ["-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
            sys.stderr.write("note: the runtime needs more of the C library than wasm/ has; only the native builds are compared\n")
            a = ""
            continue
        if out == b:
            run(cmd + ["-o", t])
        os.replace(t, out)
    # the whole tool, too, optimised and without sanitizers
    objs = compile_jobs(obj_jobs(vm + files("src/compiler", ".c") + files("src/cli", ".c"), ["-O3", "-funsigned-char", "-fshort-enums", "-w", '-DCND_VERSION="0"', '-DCND_GIT_HASH="0"'] + inc + ["-I" + os.path.join(REPO, d) for d in ("src/compiler", "src/cli")] + ["-I" + SHIM, "-I/usr/include/cjson"], "gcc", tree_hash(headers())))
    c = os.path.join(BUILD, "cnd-alt")
    t = c + ".%d.tmp" % os.getpid()
    run(["gcc"] + objs + ["-o", t, "-lcjson", "-lm"])
    os.replace(t, c)
    env.update(PBT_ALTCND=c, PBT_WASM=a, PBT_ALT=b, PBT_NODE=shutil.which("node") or "node", PBT_RUNJS=os.path.join(w, "run.js"))


def build_go(lib):
    """The Go driver (godrv/) built against the Go package in /repo."""
    work = os.path.join(BUILD, "godrv")
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "godrv"), work)
    mod = "concordia"
    for l in open(os.path.join(REPO, "go.mod")):
        if l.startswith("module "):
            mod = l.split()[1]
    for f in os.listdir(work):
        p = os.path.join(work, f)
        t = open(p).read().replace("@MODULE@", mod).replace("@REPO@", REPO)
        open(p[:-3] if p.endswith(".in") else p, "w").write(t)
        if p.endswith(".in"):
            os.remove(p)
    h = tree_hash(lib + headers())[:16]
    env = dict(os.environ, **GOENV)
    env["CGO_CFLAGS"] = "-g -O1 -DVERIF_TREE_%s" % h
    env["GOFLAGS"] = "-mod=mod"
    env["GOCACHE"] = os.path.join(BUILD, "gocache")
    out = os.path.join(BUILD, "godriver")
    run(["go", "build", "-o", out, "."], cwd=work, env=env)
    return out


def findings():
    """known findings: lines 'known: property=<id> key=<key> <text>' (suppress) and 'fixed: ...' (informative)."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                d = l[len("known: "):].strip()
                parts = d.split(None, 2)
                out.append({"property": parts[0].split("=", 1)[1], "key": parts[1].split("=", 1)[1], "text": parts[2] if len(parts) > 2 else ""})
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build({"cli", "gen"})
        print("built")
        return 0
    pid = a[0]
    opt = {"cases": None, "seed": os.environ.get("VERIF_SEED", "1"), "replay": None}
    thorough = "--thorough" in a or (os.environ.get("VERIF_TIER") == "thorough")
    for k in opt:
        if "--" + k in a:
            opt[k] = a[a.index("--" + k) + 1]
    t0 = time.time()
    spec = NEEDS[pid]
    env = build(set(spec["needs"]))
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    try:
        scratch = tempfile.mkdtemp(prefix="pbt-%s-" % pid, dir=base)
    except OSError:
        scratch = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    try:
        e = dict(os.environ, **env)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=%d" % (pid != "C35")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        e["LC_ALL"] = "C"
        e["PBT_VERIF"] = HERE
        if pid == "C37":
            # the search for lost memory at exit needs ptrace; where that is not allowed only the counters are used
            q = subprocess.run([env["PBT_CND"], "version"], env=dict(e, ASAN_OPTIONS=e["ASAN_OPTIONS"] + ":detect_leaks=1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if q.returncode == 0:
                e["PBT_LEAKS"] = "1"
            else:
                print("note: no leak detection at exit here, only counters")
        kf = findings()
        e["PBT_KNOWN"] = ",".join(f["key"] for f in kf if f["property"] == pid)
        out = os.path.join(scratch, "out.json")
        cmd = [env["PBT"], "--id", pid, "--seed", str(int(opt["seed"])), "--out", out, "--replay-dir", os.path.join(HERE, "replays"), "--scratch", scratch, "--jobs", str(spec.get("jobs", 8))]
        if thorough:
            cmd += ["--thorough", "--time", str(spec.get("thorough_s", 1500))]
        else:
            cmd += ["--time", str(spec.get("quick_s", 120))]
        if opt["cases"]:
            cmd += ["--cases", opt["cases"]]
        if opt["replay"]:
            return subprocess.run(cmd + ["--replay", os.path.abspath(opt["replay"])], env=e).returncode
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(p.stdout)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            sys.stderr.write("the search itself failed (exit %d)\n" % p.returncode)
            return 2
        r = json.load(open(out))
        cov = {k: r[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "classes", "planned_cases", "unreproduced_timeouts")}
        ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(opt["seed"]), "level": "exploration", "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if r["violated"] else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        t = os.path.join(HERE, "evidence", pid + ".json.tmp")
        json.dump(ev, open(t, "w"), indent=1)
        os.replace(t, os.path.join(HERE, "evidence", pid + ".json"))
        print("%s: %d cases, %d distinct non-trivial, %.1f s" % (pid, r["evaluations"], r["distinct_nontrivial"], time.time() - t0))
        for f in kf:
            if f["property"] == pid and r["classes"].get("known:" + f["key"]):
                print("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
        if r["violated"]:
            print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
            return 1
        if r["evaluations"] == 0 or r["distinct_nontrivial"] < 2:
            sys.stderr.write("no non-trivial cases were explored\n")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
