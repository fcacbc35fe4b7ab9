#!/usr/bin/env python3
"""Mutation campaign: how much of a change anywhere in the crate would the conformance machinery notice?
Works on copies under /tmp/mut (crate, harness, specification); never touches /repo.   Not one of the registered checks.
  mutate.py prepare            copies, and a sample of every property's quick cases
  mutate.py run [every n-th] [offset]   runs mutants, results in /tmp/mut/results.jsonl
  mutate.py survivors          lists the mutants nothing noticed"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
BASE = "/tmp/mut"
LANES = 2
FRACTION = 0.06

OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" >= ", " > "), (r" <= ", " < "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if !", "if "), (r"\buncompressed_size\b", "compressed_size"), (r"\bcompressed_size\b", "uncompressed_size"),
       (r"\bmin\(", "max("), (r"\bsaturating_sub\(", "wrapping_sub("), (r" as u64", " as u32 as u64"), (r" as u32", " as u16 as u32"), (r"\bSome\(_\) =>", "None =>"),
       (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_err\(\)", ".is_ok()"), (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r" >> ", " << "),
       (r"Pending", "Ready(Ok(0))"), (r"\bskip\b", "take")]


def mutants(repo):
    out = []
    files = subprocess.run(["git", "-C", repo, "ls-files", "src"], stdout=subprocess.PIPE, text=True).stdout.split()
    for f in files:
        if "/tests" in f or f.endswith("tests.rs"):
            continue
        lines = open(os.path.join(repo, f)).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "///", "pub(crate) mod", "pub(crate) use", "impl", "where", "pub struct")):
                continue
            code = l.split(" //")[0]
            if "feature =" in code:
                continue
            for a, b in OPS:
                if a in (r" \+ ", r" & ", r" - ", r" \| ", r" < ", r" > ") and re.search(r":.*(\+|<).*(Unpin|Async|where)|R: |W: |->", code):
                    continue
                for m in list(re.finditer(a, code))[:2]:
                    n = l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]
                    out.append((f, i, n, "%s -> %s" % (a, b)))
            for m in list(re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code))[:2]:
                if not re.search(r"\[\s*u8|#\[", code):
                    out.append((f, i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "%s+1" % m.group(1)))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "type ", "const ", "pub const", "fn", "pub fn")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                out.append((f, i, l[:len(l) - len(l.lstrip())] + "{}", "statement deleted"))
            if re.match(r"\s*return Err\(.*\);$", code):
                out.append((f, i, "", "error return deleted"))
    return out


def prepare():
    os.makedirs(BASE, exist_ok=True)
    cases = []
    rnd = random.Random(5)
    for p in check.PROPS:
        w = os.path.join(BASE, "gen-" + p)
        os.makedirs(w, exist_ok=True)
        cs = check.generate(p, "quick", w, 1)
        heavy = [c for c in cs if c["fam"] in ("limits", "count", "bigdir")]
        light = [c for c in cs if c["fam"] not in ("limits", "count", "bigdir")]
        rnd.shuffle(light)
        rnd.shuffle(heavy)
        cases += light[:max(60, int(len(light) * FRACTION))] + [c for c in heavy if c["fam"] == "limits"][:20] + [c for c in heavy if c["fam"] == "count"][:2]
    for i, c in enumerate(cases):
        c["idx"] = i
    rnd.shuffle(cases)
    json.dump(cases, open(BASE + "/cases.json", "w"))
    print(len(cases), "cases")
    for k in range(LANES):
        d = "%s/L%d" % (BASE, k)
        os.makedirs(d, exist_ok=True)
        subprocess.run("rm -rf %s/repo %s/harness; git -C /repo worktree prune; mkdir %s/repo; git -C /repo archive HEAD | tar x -C %s/repo; cp -a %s/harness %s/harness" % (d, d, d, d, ROOT, d), shell=True, check=True)
        c = open(d + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % d)
        open(d + "/harness/Cargo.toml", "w").write(c)
        subprocess.run("git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, cwd=d + "/repo")
        print(build(d).returncode)


def build(d):
    subprocess.run("rm -rf %s/harness/target/debug/.fingerprint/async_zip-* %s/harness/target/debug/.fingerprint/zv-*" % (d, d), shell=True)
    return subprocess.run(["cargo", "build", "--offline", "--quiet", "-j", "4"], cwd=d + "/harness", env=dict(os.environ, CARGO_TARGET_DIR=d + "/harness/target", RUSTFLAGS="-Awarnings"),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def judge(d, cases):
    """None if nothing is noticed, else what is."""
    b = build(d)
    if b.returncode:
        return "build"
    n = 4
    prefix = d + "/t.trace"
    with open(d + "/t.cases", "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    os.makedirs(d + "/tmp", exist_ok=True)
    try:
        r = subprocess.run(["bash", "-c", 'ulimit -v 3000000; exec "$0" "$@"', d + "/harness/target/debug/zv", "run", "--cases", d + "/t.cases", "--out", prefix, "--seed", "1", "--jobs", str(n), "--tmo", "20"],
                           env=dict(os.environ, TMPDIR=d + "/tmp", RUST_BACKTRACE="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return "timeout of the harness"
    if r.returncode:
        return "TOOL harness: " + r.stdout[-200:]

    def one(j):
        p = "%s.%d" % (prefix, j)
        if os.path.getsize(p) == 0:
            return []
        rc, o = check.tlc("ZipTrace", "ZipTrace.cfg", d, env=dict(ZV_TRACE=p))
        rej = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"REJECT (.*)"$', o, re.M)]
        if "No error has been found" not in o or "CONSUMED" not in o:
            rej.append(dict(fails=["TOOL tlc: " + o[-1500:]], sc=0))
        return rej
    with cf.ThreadPoolExecutor(n) as ex:
        rej = sum(ex.map(one, range(n)), [])
    if rej:
        return "; ".join(sorted(rej, key=lambda r: str(r["fails"]).startswith("['TOOL"))[0]["fails"])[:300]
    return None


def run(step, off):
    cases = json.load(open(BASE + "/cases.json"))
    ms = mutants(BASE + "/L0/repo")
    random.Random(3).shuffle(ms)
    ms = ms[off::step]
    seen = set()
    res = BASE + "/results.jsonl"
    if os.path.exists(res):
        seen = {(r["f"], r["i"], r["new"]) for r in map(json.loads, open(res))}
    ms = [m for m in ms if (m[0], m[1], m[2]) not in seen]
    print(len(ms), "mutants", flush=True)
    lock = threading.Lock()
    it = iter(ms)

    def lane(k):
        d = "%s/L%d" % (BASE, k)
        while True:
            with lock:
                m = next(it, None)
            if m is None or os.path.exists(BASE + "/stop"):
                return
            f, i, new, op = m
            p = os.path.join(d, "repo", f)
            old = open(p).read()
            ls = old.split("\n")
            was = ls[i]
            ls[i] = new
            t = time.time()
            open(p, "w").write("\n".join(ls))
            try:
                out = judge(d, cases)
            finally:
                open(p, "w").write(old)
            with lock, open(res, "a") as g:
                g.write(json.dumps(dict(f=f, i=i, was=was, new=new, op=op, out=out, s=round(time.time() - t))) + "\n")
    with cf.ThreadPoolExecutor(LANES) as ex:
        list(ex.map(lane, range(LANES)))


def survivors():
    rs = [json.loads(l) for l in open(BASE + "/results.jsonl")]
    b = [r for r in rs if r["out"] == "build"]
    s = [r for r in rs if r["out"] is None]
    t = [r for r in rs if r["out"] and "TOOL" in r["out"]]
    print("%d mutants, %d do not build, %d noticed, %d tool errors, %d survive" % (len(rs), len(b), len(rs) - len(b) - len(s) - len(t), len(t), len(s)))
    for r in s + t:
        print("%s:%d  [%s]\n   - %s\n   + %s %s" % (r["f"], r["i"] + 1, r["op"], r["was"].strip(), r["new"].strip(), ("" if r["out"] is None else r["out"][-300:])))


if __name__ == "__main__":
    a = sys.argv[1]
    if a == "prepare":
        prepare()
    elif a == "run":
        run(int(sys.argv[2]) if len(sys.argv) > 2 else 1, int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    elif a == "count":
        print(len(mutants("/repo")))
    else:
        survivors()
