#!/usr/bin/env python3
"""Development aid: mutation testing of the checks (not registered in MANIFEST.json).

usage: mutate.py REPO OUT.jsonl SEED COUNT FILE...    (run from a copy of /verif, on a copy of /repo)
Applies COUNT random one-token changes to lines of FILEs (relative to the repository), one at a time, runs the
checks that concern the file with a fraction of their cases and no shrinking, and records which check notices.
"""
import json, os, random, re, subprocess, sys, tempfile, shutil, time
repo, outp, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
fs = sys.argv[5:]
os.environ["VERIF_REPO"] = repo
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
VM = "C03 C02 C01 C12 C11 C10 C13 C09 C07 C08 C14 C04 C05 C16 C15 C21 C31 C29 C06".split()
COMP = "C18 C02 C17 C19 C32 C03 C10 C11 C22 C07 C09 C08 C29 C12 C13 C14 C20 C30 C16".split()
CLI = "C23 C24 C25 C30 C22".split()
def ids(f):
    if "/vm/" in f: return VM
    if "/compiler/" in f: return COMP
    if f.endswith("cmd_lsp.c"): return ["C25"]
    if f.endswith("cmd_inspect.c"): return ["C24"]
    if "/cli/" in f: return CLI
    if f.endswith("gen_bindings.c"): return ["C27"]
    if "go/" in f: return ["C26"]
    return VM
SCALE = float(os.environ.get("MUT_SCALE", "0.15"))
def cases(i):
    for f in os.listdir(os.path.join(check.HERE, "src")):
        m = re.search(r'Reg r\w+\(\{"%s".*?(\d+), \d+\}\);' % i, open(os.path.join(check.HERE, "src", f)).read(), re.S)
        if m: return max(300, int(int(m.group(1)) * SCALE))
def mutate(line, rng):
    if re.match(r"\s*(#|//|\*|/\*)", line) or not line.strip(): return None
    code = line.split("//")[0]
    ops = []
    for m in re.finditer(r"(?<![<>=!+\-&|*/%])(<=|>=|==|!=|<<|>>|&&|\|\||<|>|\+\+|--|\+|-|\*|/|%|&|\|)(?![<>=&|+\-])", code):
        t = m.group(1)
        if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
        R = {"<=": ["<", "=="], ">=": [">"], "==": ["!=", ">="], "!=": ["=="], "<<": [">>"], ">>": ["<<"], "&&": ["||"], "||": ["&&"], "<": ["<=", ">"], ">": [">=", "<"], "+": ["-"], "-": ["+"], "/": ["*"], "%": ["/"], "&": ["|"], "|": ["&"], "++": ["--"]}.get(t)
        if R: ops.append((m.start(), m.end(), rng.choice(R)))
    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code):
        if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
        ops.append((m.start(), m.end(), str(max(0, int(m.group(1)) + rng.choice([-1, 1])))))
    for m in re.finditer(r"\b(true|false)\b", code): ops.append((m.start(), m.end(), "false" if m.group(1) == "true" else "true"))
    m = re.search(r"\bif\s*\(", code)
    if m: ops.append((m.end(), m.end(), "!!" if 0 else rng.choice(["0 && ", "1 || "])))
    if os.environ.get("MUT_KIND") == "wide":  # narrower types, another name, a condition without one part
        ops = []
        for m in re.finditer(r"\b(uint64_t|uint32_t|uint16_t|int64_t|int32_t|int16_t|size_t|long|double|int)\b", code):
            N = {"uint64_t": ["uint32_t", "int64_t"], "uint32_t": ["uint16_t", "int32_t"], "uint16_t": ["uint8_t", "int16_t"], "int64_t": ["int32_t", "double"], "int32_t": ["int16_t", "uint32_t"], "int16_t": ["int8_t", "uint16_t"], "size_t": ["int", "uint16_t"], "long": ["int"], "double": ["float"], "int": ["short", "unsigned char"]}[m.group(1)]
            ops.append((m.start(), m.end(), rng.choice(N)))
        names = list(re.finditer(r"(?<![\w.\"'])[a-z_]\w*(?:(?:->|\.)\w+)*(?![\w(\"'])", code)); KW = {"if", "else", "return", "for", "while", "case", "break", "int", "char", "const", "void", "static", "struct", "switch", "true", "false", "double", "float", "sizeof", "unsigned"}
        pool = [m for m in names if m.group(0) not in KW and not m.group(0).endswith("_t")]
        for m in pool:
            other = [q.group(0) for q in pool if q.group(0) != m.group(0)]
            if other: ops.append((m.start(), m.end(), rng.choice(other)))
        for m in re.finditer(r"(&&|\|\|)\s*([^&|(){}]+)(?=[)&|])", code): ops.append((m.start(), m.end(), ""))
        for m in re.finditer(r"\(([^&|(){}]+)\s*(&&|\|\|)\s*", code): ops.append((m.start() + 1, m.end(), ""))
        for m in re.finditer(r"\b0x([0-9A-Fa-f]{2,})\b", code): ops.append((m.start(), m.end(), hex(int(m.group(1), 16) ^ (1 << rng.randrange(4 * len(m.group(1)))))))
    st = os.environ.get("MUT_KIND") != "wide" and re.match(r"(\s*)((?:[\w\->.\[\]]+\s*[+\-|&]?=[^=].*|\w+\([^;{}]*\)|break|continue|return[^;]*));\s*$", code)
    if st and "return" not in st.group(2): ops.append((len(st.group(1)), len(code.rstrip()), ";")); ops.append((len(st.group(1)), len(code.rstrip()), ";"))
    if not ops: return None
    a, b, r = rng.choice(ops)
    return line[:a] + r + line[b:]
def main():
    rng = random.Random(seed); sites = []
    for f in fs:
        L = open(os.path.join(repo, f)).read().split("\n"); sites += [(f, i) for i, l in enumerate(L) if mutate(l, random.Random(1))]
    rng.shuffle(sites); done = 0; jobs = os.environ.get("MUT_JOBS", "2")
    for f, i in sites:
        if done >= count: break
        p = os.path.join(repo, f); orig = open(p).read(); L = orig.split("\n"); new = mutate(L[i], rng)
        if not new or new == L[i]: continue
        rec = {"file": f, "line": i + 1, "old": L[i].strip(), "new": new.strip()}; t0 = time.time(); L[i] = new
        open(p, "w").write("\n".join(L))
        try:
            I = ids(f); needs = set(n for k in I for n in check.NEEDS[k]["needs"])
            try:
                import io, contextlib
                with contextlib.redirect_stderr(io.StringIO()): env = check.build(needs)
            except SystemExit:
                continue
            done += 1
            e = dict(os.environ, **env, PBT_NOSHRINK="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=1", LC_ALL="C", PBT_VERIF=check.HERE)
            rec["by"] = None
            for k in I:
                sc = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
                try: r = subprocess.run([env["PBT"], "--id", k, "--seed", "1", "--out", sc + "/o.json", "--replay-dir", sc, "--scratch", sc, "--jobs", jobs, "--time", "200", "--cases", str(cases(k))], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=600)
                except subprocess.TimeoutExpired: rec["by"] = k + " (timeout)"; break
                finally: shutil.rmtree(sc, ignore_errors=True)
                if r.returncode: rec["by"] = k; rec["msg"] = r.stdout[:160]; break
        finally: open(p, "w").write(orig)
        rec["s"] = round(time.time() - t0, 1)
        open(outp, "a").write(json.dumps(rec) + "\n")
main()
