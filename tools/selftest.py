#!/usr/bin/env python3
"""Shows that the machinery can say no.
  models: every mutation of a design model (a plausible mistake in the algorithm) must violate an invariant.
  traces: every corruption of a recorded, accepted trace must be rejected by ZipTrace.
Not one of the registered checks; run it by hand after changing the specification:  python3 tools/selftest.py [models|traces]"""
import concurrent.futures as cf
import json, os, random, re, shutil, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check

MUT = [
    # module, config, text, replacement, what mistake it is
    ("MCLocate", "MCLocate.cfg", "Minus(position, Window - SigLen - Fixed)", "Minus(position, Window - 1)", "windows overlap by one byte"),
    ("MCLocate", "MCLocate.cfg", "position <= Minus(Len(file), Reach)", "position <= Minus(Len(file), Reach - 1)", "reach one byte short"),
    ("MCLocate", "MCLocate.cfg", "IF room = 0 THEN st' = \"search\"", "IF room = 0 \\/ filled > 0 THEN st' = \"search\"", "one short read taken for a full window"),
    ("MCLocate", "MCLocate.cfg", "result' = <<position + Max(w)>>", "result' = <<position + (CHOOSE x \\in w : \\A y \\in w : x <= y)>>", "first instead of last match"),
    ("MCLocate", "MCLocate.cfg", "IF w # {} THEN", "IF FALSE THEN", "always the last signature"),
    ("MCLocate", "MCLocate.cfg", "IF last = <<>> /\\ m # {}", "IF m # {}", "falls back to the first signature"),
    ("MCStream", "MCStream.cfg", "ELSE <<\"ok\", q + 3>>) ELSE", "ELSE <<\"ok\", q + 2>>) ELSE", "descriptor with signature: wrong length"),
    ("MCStream", "MCStream.cfg", "IF ents[sidx + 1].d = \"no\" THEN <<\"ok\", q>>", "IF TRUE THEN <<\"ok\", q>>", "descriptor not consumed"),
    ("MCStream", "MCStream.cfg", "IF AtCut THEN \"Io\"\n", "IF AtCut THEN \"none\"\n", "end of source taken for the end of the entries"),
    ("MCStream", "MCStream.cfg", "lim' = (IF e.d = \"no\" THEN DLen(e) ELSE NoLim)", "lim' = NoLim", "no length limit"),
    ("MCStream", "MCStream.cfg", "\\/ (e.k = \"stored\" /\\ e.d # \"no\")", "", "stored with descriptor not refused"),
    ("MCAccess", "MCAccess_seek.cfg", "q == at + 1 + ents[i + 1].x IN", "q == at + 1 IN", "local extra area not stepped over"),
    ("MCAccess", "MCAccess_seek.cfg", "/\\ shared' = q\n            /\\ UNCHANGED ents", "/\\ shared' = (IF acc = <<>> THEN q ELSE shared)\n            /\\ UNCHANGED ents", "position cached between openings"),
    ("MCAccess", "MCAccess_own.cfg", "Pos(h) == IF Kind = \"seek\" THEN shared ELSE cur[h].pos", "Pos(h) == shared", "readers share a position"),
    ("MCPoll", "MCPoll.cfg", "SinkTakes(s, k) == sink' = sink \\o SubSeq(s, 1, k) /\\ off' = off + k", "SinkTakes(s, k) == sink' = sink \\o SubSeq(s, 1, k) /\\ off' = off + Len(s)", "offset counts what was offered"),
    ("MCPoll", "MCPoll.cfg", "hashed' = hashed \\o SubSeq(Offer(m), 1, k)\n            /\\", "hashed' = hashed \\o Offer(m)\n            /\\", "hash of what was offered"),
    ("MCPoll", "MCPoll.cfg", "phase' = \"head\" /\\ at' = off", "phase' = \"head\" /\\ at' = (IF cds = <<>> THEN 0 ELSE cds[Len(cds)].at + Len(EntryBytes(cds[Len(cds)].i)))", "offset from the listed entries instead of the sink"),
    ("MCPoll", "MCPoll.cfg", "/\\ phase = \"finish\" /\\ ebuf = <<>>", "/\\ phase = \"finish\"", "descriptor before the encoder is drained"),
    ("MCCopy", "MCCopy.cfg", "clean == Without(xs, \"zip64\")", "clean == xs", "stale ZIP64 field kept"),
    ("MCCopy", "MCCopy.cfg", "IF f # <<>> /\\ f[1].a = basic /\\ IsUtf8(f[1].b)", "IF f # <<>> /\\ IsUtf8(f[1].b)", "Unicode field used without its CRC"),
    ("MCCopy", "MCCopy.cfg", "big == u >= Max32 \\/ c >= Max32", "big == u > Max32 \\/ c > Max32", "a size equal to the marker stored directly"),
    ("MCCopy", "MCCopy.cfg", "IF Plain(n) /\\ Plain(c) THEN x", "IF Plain(n) THEN x", "comment's encoding ignored"),
    ("MCDate", "MCDate.cfg", "Month(v) == date' = Set(date, 5, 8, v)", "Month(v) == date' = date + v * 32", "setter adds instead of replacing"),
    ("MCDate", "MCDate.cfg", "Second(v) == time' = Set(time, 0, 4, v \\div 2)", "Second(v) == time' = Set(time, 0, 4, v)", "seconds not halved"),
    ("MCChecked", "MCChecked.cfg", "Finish(IF hash = rec THEN \"ok\" ELSE \"CRC32CheckError\")", "Finish(\"ok\")", "CRC not compared"),
    ("MCChecked", "MCChecked.cfg", "IF dst = \"ended\" THEN AtEof ELSE Finish(\"Io\")", "AtEof", "a broken decoder reads as the end"),
    ("MCChecked", "MCChecked.cfg", "Visible == Min(have, lim)", "Visible == have", "length limit ignored"),
    ("MCForeign", "MCForeign.cfg", "IF c.disk # c.cdd \\/ c.nt # c.nd THEN Stop", "IF c.nt # c.nd THEN Stop", "split archives not refused"),
    ("MCForeign", "MCForeign.cfg", "k2 == IF Here.c32 = Max32 /\\ Len(z) >= k1 THEN k1 + 1 ELSE k1\n       IN  out'", "k2 == IF Here.c32 = Max32 /\\ Here.u32 = Max32 /\\ Len(z) >= k1 THEN k1 + 1 ELSE k1\n       IN  out'", "compressed size deferred alone is missed"),
    ("MCForeign", "MCForeign.cfg", "Method == pc = \"method\" /\\ IF Here.m \\notin KnownMethods THEN Stop(\"CompressionNotSupported\") ELSE Goto(\"extra\")", "Method == pc = \"method\" /\\ Goto(\"extra\")", "unknown method listed"),
    ("MCHostile", "MCHostile.cfg", "reserved' = Min(n, Hint)", "reserved' = n", "memory reserved on a claimed count"),
    ("MCHostile", "MCHostile.cfg", "IF n + 1 > area THEN Stop(\"error\")", "IF n > area + 3 THEN Stop(\"error\")", "field longer than its area"),
    ("MCWriter", "MCWriter.cfg", "ob == at >= Max32", "ob == at > Max32", "an offset equal to the marker stored directly"),
    ("MCWriter", "MCWriter.cfg", "big == t.us >= Max32 \\/ t.cs >= Max32", "big == t.us >= Max32", "compressed size not looked at"),
    ("MCWriter", "MCWriter.cfg", "z == is64 \\/ (mode # \"no64\" /\\ (pos > Max32 \\/ cs > Max32))", "z == is64 \\/ (mode # \"no64\" /\\ pos > Max32)", "directory size does not ask for ZIP64"),
    ("MCWriter", "MCWriter.cfg", "lay' = IF res = \"ok\" THEN Append(lay, [cd |-> en.cd, loc |-> en.loc]) ELSE lay\n                /\\ is64'", "lay' = Append(lay, [cd |-> en.cd, loc |-> en.loc])\n                /\\ is64'", "refused entries listed"),
    ("MCWriter", "MCWriter.cfg", "cz == IF big THEN z ELSE IF ob THEN <<at>> ELSE <<>>", "cz == z", "deferred offset without its value"),
    ("MCWriter", "MCWriter.cfg", "res == CASE mode = \"no64\" /\\ (t.us > Max32 \\/ t.cs > Max32 \\/ at > Max32) -> \"Zip64Needed\"", "res == CASE mode = \"no64\" /\\ (t.us > Max32 \\/ t.cs > Max32) -> \"Zip64Needed\"", "offset not looked at when ZIP64 is forbidden"),
]


def models():
    base = os.path.join(check.WORK, "selftest")
    shutil.rmtree(base, ignore_errors=True)

    def one(k):
        mod, cfg, a, b, what = MUT[k]
        d = os.path.join(base, str(k))
        shutil.copytree(check.SPEC, d)
        p = os.path.join(d, mod + ".tla")
        t = open(p).read()
        if t.count(a) != 1:
            return k, "mutation text occurs %d times" % t.count(a)
        open(p, "w").write(t.replace(a, b))
        r = check.run(["java", "-XX:+UseSerialGC", "-Xss32m", "-Xmx3g", "-cp", check.JARS, "tlc2.TLC", "-workers", "1", "-metadir", d + "/md",
                       "-noGenerateSpecTE", "-config", cfg, mod + ".tla"], cwd=d, timeout=900)
        shutil.rmtree(d, ignore_errors=True)
        hit = [l for l in r.stdout.splitlines() if "is violated" in l or "were violated" in l]
        return k, (None if hit else r.stdout[-600:]), hit[:1]
    bad = 0
    with cf.ThreadPoolExecutor(6) as ex:
        for k, err, *hit in ex.map(one, range(len(MUT))):
            if err:
                bad += 1
            print("%-10s %-60s %s" % (MUT[k][0], MUT[k][4], "NOT DETECTED: " + err if err else hit[0][0].strip()))
    shutil.rmtree(base, ignore_errors=True)
    return bad


# ---------------------------------------------------------------------------
def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list) and len(x) == 4 and all(isinstance(v, int) for v in x):
        yield path, x           # a number in limbs
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def put(x, path, v):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def change(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, list):
        return [v[0] ^ 1] + v[1:]
    return v + "~"


# fields an event carries that no property constrains (positions inside known tolerances, redundant copies)
def traces():
    rnd = random.Random(7)
    check.build()
    total = caught = 0
    missed = {}
    for prop in sys.argv[2:] or list(check.PROPS):
        work = os.path.join(check.WORK, "selftest-" + prop)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        cases = check.generate(prop, "quick", work, 1)
        rnd.shuffle(cases)
        cases = [c for c in cases if c["fam"] not in ("limits", "count", "bigdir")][:60]
        shards = check.harness(cases, work, 1, jobs=8)
        scen = []
        for s in shards:
            cur = []
            for l in open(s):
                cur.append(json.loads(l))
                if cur[-1]["e"] == "End":
                    scen.append(cur)
                    cur = []
        out, info = [], []
        for sc in scen:
            sites = [(i, p, v) for i, e in enumerate(sc) if e["e"] not in ("Begin", "End") for p, v in leaves(e) if p != ("e",)]
            rnd.shuffle(sites)
            for i, p, v in sites[:12]:
                c = json.loads(json.dumps(sc))
                put(c[i], p, change(v))
                c[0]["sc"] = len(info)
                info.append((sc[i]["e"], "/".join("*" if isinstance(k, int) else k for k in p)))
                out.append(c)
        paths = []
        for j in range(8):
            paths.append(os.path.join(work, "mut.%d" % j))
        hit = set()

        def one(j):
            mine, got = out[j::8], set()
            while mine:
                with open(paths[j], "w") as f:
                    for c in mine:
                        for e in c:
                            f.write(json.dumps(e) + "\n")
                rc, o = check.tlc("ZipTrace", "ZipTrace.cfg", work, env=dict(ZV_TRACE=paths[j]))
                got |= {json.loads(json.loads('"' + m + '"'))["sc"] for m in re.findall(r'^"REJECT (.*)"$', o, re.M)}
                if "No error has been found" in o and "CONSUMED" in o:
                    return got
                at = int(re.findall(r"^/\\ sc = (\d+)", o, re.M)[-1])      # a type the specification has no meaning for
                got.add(at)
                k = [c[0]["sc"] for c in mine].index(at)
                mine = mine[k + 1:]
            return got
        with cf.ThreadPoolExecutor(8) as ex:
            for g in ex.map(one, range(8)):
                hit |= g
        total += len(info)
        caught += len(hit)
        for k, x in enumerate(info):
            a = missed.setdefault(x, [0, 0])
            a[0] += 1
            a[1] += k in hit
        shutil.rmtree(work, ignore_errors=True)
        print("%s: %d of %d corruptions rejected" % (prop, len(hit), len(info)), flush=True)
    print("all: %d of %d corruptions rejected; fields whose corruption is never rejected:" % (caught, total))
    for x, (n, h) in sorted(missed.items()):
        if h == 0:
            print("   %-8s %-30s %d tries" % (x[0], x[1], n))
    return 0


if __name__ == "__main__":
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    rc = 0
    if what in ("models", "all"):
        rc += models()
    if what in ("traces", "all"):
        rc += traces()
    sys.exit(1 if rc else 0)
