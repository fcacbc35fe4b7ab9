------------------------------- MODULE ZipGen --------------------------------
(* Abstract cases for the conformance harness, enumerated by TLC.  A case is  *)
(* an abstract behaviour (calls, the environment's schedule and faults, the   *)
(* kinds of data and text involved); the harness makes it concrete, runs the  *)
(* real code, and ZipTrace judges the recorded events.  What a case leaves    *)
(* open (concrete bytes, dates, attributes) is drawn from VERIF_SEED.         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, TLC, IOUtils

Thorough == IOEnv.ZV_TIER = "thorough"
Q(a, b) == IF Thorough THEN b ELSE a

SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
SeqsOf(S, a, b) == UNION { [1..k -> S] : k \in a..b }
Reps(n) == 1..n

Modes == {"auto", "no64", "force64"}
Kinds == {"W", "P", "S", "Q"}                  \* whole, precompressed whole, stream, precompressed stream
Methods == {"stored", "deflate", "bz", "lzma", "zstd", "xz"}
Sizes == {"zero", "one", "tiny", "mid", "big", "huge"}
Names == {"ascii", "blank", "longraw", "dir", "utf8", "raw", "rawutf8", "rawascii", "alt", "altascii", "altsame", "alt2", "long", "sig", "ctl", "utf8dir", "empty", "same", "medium", "odd", "oddraw", "oddalt", "rand", "bytes"}
Cmts  == {"none", "blank", "longraw", "ascii", "utf8", "raw", "rawutf8", "alt", "altascii", "alt2", "long", "sig", "medium", "odd", "oddraw", "oddalt", "rand", "bytes"}
ACmts == {"none", "empty", "blank", "short", "utf8", "odd", "rand", "mid", "max", "sig"}
Small(q) == [ i \in 1..Len(q) |-> [k |-> q[i], sz |-> "tiny", nm |-> "utf8", cm |-> "ascii", m |-> "fast"] ]
Kx(q) == [ i \in 1..Len(q) |-> [k |-> q[i]] ]

Prog(md, ops, c, vs) == [fam |-> "prog", mode |-> md, ops |-> ops, cmt |-> c, views |-> vs]

(* programs of up to n calls, every mode *)
Programs(n, cs, vs) == { Prog(md, Kx(q), c, vs) : md \in Modes, q \in SeqsUpTo(Kinds, n), c \in cs }
(* every method and size by every kind of call, followed by one more entry *)
MethodSizes(ks, mds, vs) ==
    { Prog(md, <<[k |-> k, m |-> m, sz |-> z], [k |-> "W", m |-> "stored", sz |-> "tiny"]>>, "short", vs) :
        md \in mds, k \in ks, m \in Methods, z \in Sizes }
(* every pair of name and comment class by every kind of call *)
Texts(ks, mds, vs) ==
    { Prog(md, <<[k |-> k, nm |-> a, cm |-> c, m |-> "deflate", sz |-> "tiny"], [k |-> k, nm |-> "ascii", cm |-> "none", m |-> "deflate", sz |-> "tiny"]>>, "utf8", vs) :
        md \in mds, k \in ks, a \in Names, c \in Cmts }

(* large data; very many entries; entries of one name *)
Giant(ks, ms, vs) == { Prog(md, <<[k |-> "W", m |-> "stored", sz |-> "tiny"], [k |-> k, m |-> m, sz |-> "giant"], [k |-> "S", m |-> "deflate", sz |-> "tiny"]>>, "short", vs) : md \in {"auto"}, k \in ks, m \in ms }
KindAt == <<"W", "S", "P", "Q">>
ManyOps(n, d) == [ i \in 1..n |-> [k |-> KindAt[1 + ((i \div d) % 4)], m |-> IF i % 3 = 0 THEN "stored" ELSE "deflate", sz |-> IF i % 5 = 0 THEN "zero" ELSE "tiny",
                                   nm |-> IF i % 7 = 0 THEN "alt" ELSE "ascii", cm |-> IF i % 11 = 0 THEN "utf8" ELSE "none"] ]
Many(n, vs) == { Prog(md, ManyOps(n, d), "short", vs) : md \in Q({"auto", "no64"}, Modes), d \in Q({1}, {1, 40}) }
SameNames(vs) == { Prog(md, [ i \in 1..3 |-> [k |-> q[i], nm |-> "same", sz |-> IF i = 2 THEN "mid" ELSE "tiny"] ], "short", vs) : md \in {"auto", "no64"}, q \in [1..3 -> Kinds] }

(* headers whose parts together are longer than 16 bits count *)
Heavy(ks, mds, vs) == { Prog(md, <<[k |-> "W", m |-> "stored", sz |-> "tiny"], [k |-> k, m |-> m, sz |-> "mid", nl |-> 40000, nk |-> nk, cl |-> 50000, ck |-> "u", xl |-> x], [k |-> "S", m |-> "deflate", sz |-> "tiny"]>>, "max", vs) :
                          md \in mds, k \in ks, m \in {"stored", "deflate"}, nk \in {"u", "raw"}, x \in {40000, 20000} }
Lim(md, ops, c, rd) == [fam |-> "limits", mode |-> md, ops |-> ops, cmtn |-> c, read |-> rd]
(* beyond 4 GiB: entries that lie there, declare or have such sizes, are refused for it, and what comes after them *)
Beyond(mds) == { Lim(md, <<[k |-> "W"], [k |-> b, upto |-> t], [k |-> j], [k |-> "P", sz |-> "9", us |-> u], [k |-> "S"]>>, 5, FALSE) :
                    md \in mds, b \in {"P"}, t \in {"m-1", "m", "m+1"}, j \in {"W", "Q"}, u \in {"9", "m", "m+1"} }
               \cup { Lim(md, <<[k |-> j], [k |-> k, sz |-> z], [k |-> j], [k |-> "S"]>>, 5, FALSE) : md \in mds, j \in {"W", "S"}, k \in {"P", "Q"}, z \in {"m-1", "m", "m+1"} }

(* full extra areas, and names and comments, of entries that need a ZIP64 field themselves *)
BeyondHeavy(mds, xs) == { Lim(md, <<[k |-> "W"], [k |-> "P", upto |-> t], [k |-> j, xl |-> x, nl |-> 30, nk |-> "u", cl |-> 3, ck |-> "u"], [k |-> "W"]>>, 5, FALSE) : md \in mds, t \in {"m-1", "m+1"}, j \in Kinds, x \in xs }
               \cup { Lim(md, <<[k |-> "P", upto |-> "m+1"], [k |-> j, nl |-> 30000 + x, nk |-> "altu", cl |-> 35535, ck |-> "altu"], [k |-> "W"]>>, 5, FALSE) : md \in mds, j \in Kinds, x \in { y - 65535 : y \in xs } }
               \cup { Lim(md, <<[k |-> "P", upto |-> "m+1"], [k |-> j, nl |-> 65535, nk |-> "u", cl |-> 65535, ck |-> "u", xl |-> 65507], [k |-> "W"]>>, 5, FALSE) : md \in mds, j \in Kinds }
               \cup { Lim(md, <<[k |-> "W"], [k |-> "P", sz |-> "9", us |-> u, xl |-> x], [k |-> "W"]>>, 5, FALSE) : md \in mds, u \in {"m-1", "m", "m+1"}, x \in xs }

With(S, f) == { x @@ f : x \in S }
Repeated(S, n) == { x @@ [rep |-> r] : x \in S, r \in Reps(n) }

---------------------------------------------------------------------------
C01 == LET v == <<"mem", "seek", "fs">> IN
       Programs(3, {"none", "utf8"}, v)
       \cup Giant(Kinds, {"stored", "deflate", "zstd"}, v) \cup Many(Q(300, 1100), v) \cup SameNames(v) \cup Heavy(Kinds, {"auto"}, v) \cup Beyond({"auto"})
       \cup MethodSizes(Kinds, {"auto"}, v)
       \cup Texts({"W", "S"}, {"auto"}, v)
       \cup { Prog(md, <<>>, c, v) : md \in Modes, c \in ACmts }
       \cup Repeated(Programs(Q(1, 2), {"short"}, v), Q(8, 40))
       \cup With(Programs(Q(2, 3), {"utf8"}, v), [tok |-> TRUE])
       \cup (IF Thorough THEN Programs(4, {"short"}, v) ELSE {})

Acts == {"read", "checked", "read_wo", "inner", "skip", "skip_wo", "part", "part_wo", "done0", "donepart"}
C02 == LET v == <<"stream">>
           one(k, m, z, a, md) == Prog(md, <<[k |-> "W", m |-> "deflate", sz |-> "tiny"], [k |-> k, m |-> m, sz |-> z],
                                         [k |-> "S", m |-> "deflate", sz |-> "tiny"], [k |-> "P", m |-> "any"]>>, "short", v)
                                  @@ [plan |-> <<"read", a, "skip", "checked">>]
       IN { one(k, m, z, a, "auto") : k \in Kinds, m \in Methods, z \in {"zero", "tiny", "big"}, a \in Acts }
          \cup { one(k, m, "mid", a, md) : k \in Kinds, m \in {"stored", "deflate", "zstd"}, a \in Acts, md \in {"no64", "force64"} }
          \cup { Prog(md, [ i \in 1..Len(q) |-> [k |-> q[i], m |-> "any"] ], "short", v) @@ [plan |-> p] :
                    md \in Modes, q \in SeqsUpTo(Kinds, 3), p \in SeqsOf({"read", "skip", "part_wo"}, 1, Q(1, 2)) }
          \cup { x @@ [plan |-> <<"read", a, "skip">>] : x \in Giant(Kinds, {"stored", "deflate", "zstd"}, v), a \in {"read", "skip", "part", "checked"} }
          \cup { x @@ [plan |-> p] : x \in Many(Q(300, 1100), v), p \in { <<"read">>, <<"skip">>, <<"read_wo", "skip_wo", "part", "checked", "inner">> } }
          \cup { x @@ [plan |-> <<"read", "skip">>] : x \in SameNames(v) \cup Heavy(Kinds, {"auto", "no64"}, v) }
          \cup { x @@ [plan |-> <<"read">>] : x \in Texts({"W", "S"}, {"auto"}, v) }
          \cup { Prog(md, <<>>, c, v) @@ [plan |-> <<a>>] : md \in Modes, c \in {"none", "mid"}, a \in {"read", "skip_wo"} }
          \cup (IF Thorough THEN { one(k, m, z, a, md) : k \in Kinds, m \in Methods, z \in Sizes, a \in Acts, md \in Modes } ELSE {})

C03 == LET v == <<"raw">> IN
       Programs(3, {"none", "utf8"}, v)
       \cup Giant(Kinds, {"stored", "deflate", "zstd"}, v) \cup Many(Q(300, 1100), v) \cup SameNames(v) \cup Heavy(Kinds, Modes, v) \cup Beyond(Q({"auto", "no64"}, Modes))
       \cup MethodSizes(Kinds, Modes, v)
       \cup Texts(Kinds, {"auto"}, v)
       \cup Texts({"W", "S"}, {"no64"}, v)
       \cup { Prog(md, <<[k |-> "W"]>>, c, v) : md \in Modes, c \in ACmts }
       \cup Repeated(Programs(Q(1, 2), {"mid"}, v), Q(8, 40))
       \cup (IF Thorough THEN Programs(4, {"short"}, v) ELSE {})

Scheds == { <<1>>, <<0, 1>>, <<0, 0, 3>>, <<7, 1, 0, 100>>, <<2, 0>>, <<29, 1, 0>>, <<4096, 0>>, <<1, 2, 3, 5, 8, 13, 0, 21>> }
Chunkings == {"one", "bytes", "small", "odd", "any"}
Apis == {"all", "write", "vec", "retry", "flush"}
C08 == LET v == <<"same", "raw">> IN
       { x @@ [sched |-> s] : x \in Giant(Kinds, {"stored", "deflate", "zstd"}, v), s \in {<<>>, <<4096, 0, 70000>>} }
       \cup { x @@ [sched |-> s] : x \in Many(300, v), s \in {<<7, 1, 0, 100>>} } \cup
       { Prog("auto", <<[k |-> k, m |-> m, sz |-> z, ch |-> c, api |-> a], [k |-> "W", m |-> "stored", sz |-> "one"]>>, "short", v) @@ [sched |-> s] :
            k \in {"S", "Q"}, m \in Methods, z \in Q({"tiny", "big"}, {"zero", "one", "tiny", "mid", "big"}), c \in Chunkings, a \in Apis, s \in Q({<<>>, <<0, 7>>}, Scheds \cup {<<>>}) }
       \cup { Prog(md, Kx(q), "mid", v) @@ [sched |-> s] : md \in Modes, q \in SeqsUpTo(Kinds, 2), s \in Scheds }
       \* through tokio's interface
       \cup { Prog(md, Kx(q), "mid", v) @@ [sched |-> s, tok |-> TRUE] : md \in Modes, q \in SeqsUpTo(Kinds, 2), s \in {<<>>, <<0, 0, 3>>, <<29, 1, 0>>} }
       \cup { Prog("auto", <<[k |-> k, m |-> m, sz |-> "mid", nm |-> "long"]>>, "max", v) @@ [sched |-> s] : k \in Kinds, m \in Methods, s \in Scheds }

Faults == {"start", "hdr", "name", "data", "late"}
Wild == [k : {"W", "P", "S", "Q"}, fault : Faults] \cup [k : {"W", "P", "S", "Q"}, cancel : Q({1, 2, 5}, {1, 2, 3, 4, 6, 9, 14})]
        \cup [k : {"A", "B"}] \cup [k : {"W", "S"}, nm : {"toolong"}] \cup [k : {"W", "S"}, cm : {"toolong"}]
C09 == LET v == <<"mem", "raw">> IN
       \* in the middle and at the end of very many, around large data, next to entries of the same name
       Beyond({"no64"}) \cup
       { Prog(md, ManyOps(n, 1) \o <<w>> \o ManyOps(3, 1), "short", v) : md \in {"auto"}, n \in {260}, w \in {[k |-> "W", fault |-> "data"], [k |-> "S", fault |-> "late"], [k |-> "A"], [k |-> "W", nm |-> "toolong"], [k |-> "S", cancel |-> 2]} }
       \cup { Prog(md, <<[k |-> a, nm |-> "same"], w @@ [nm |-> "same"], [k |-> b, nm |-> "same"]>>, "short", v) : md \in Modes, a \in {"W", "S"}, b \in {"W", "S"}, w \in Wild }
       \cup { Prog("auto", <<[k |-> "W"], w @@ [sz |-> "giant", m |-> "deflate"], [k |-> "S"]>>, "short", v) : w \in { x \in Wild : "nm" \notin DOMAIN x /\ "cm" \notin DOMAIN x } } \cup
       { Prog(md, <<[k |-> a], w, [k |-> b]>>, "short", v) : md \in Modes, a \in {"W", "S"}, b \in {"W", "S", "Q"}, w \in Wild }
       \* the sink fails to flush
       \cup { Prog(md, <<[k |-> a], [k |-> k, fault |-> "flush", api |-> "flush", ch |-> c, m |-> m, sz |-> z], [k |-> b]>>, "short", v) :
                md \in Modes, a \in {"W"}, b \in {"S", "Q"}, k \in {"S", "Q"}, m \in Methods, c \in {"one", "odd"}, z \in {"one", "mid"} }
       \cup { Prog(md, <<w, x, [k |-> "W"]>>, "short", v) : md \in Q({"auto"}, Modes), w \in Wild, x \in Wild }
       \cup { Prog(md, <<[k |-> a]>>, "short", v) @@ [finfault |-> f] : md \in Modes, a \in {"W", "S"}, f \in {1, 3, 47, 60, 80, 120} }
       \cup { [fam |-> "faults", mode |-> md, ops |-> Small(q), cmt |-> "short", stride |-> Q(7, 1)] : md \in Modes, q \in SeqsOf(Kinds, 1, 2) }
       \cup { [fam |-> "cancels", mode |-> md, ops |-> Small(q), cmt |-> "short", stride |-> 1, sched |-> s] :
                md \in Modes, q \in SeqsOf(Kinds, 1, 2), s \in {<<0, 1>>, <<0, 30, 0, 9>>} }

---------------------------------------------------------------------------
(* Constructed ("foreign") archives.  An entry is a record of knobs, each     *)
(* naming one deviation from a plain conforming entry; so are the end records *)
Foreign(es, e, vs) == [fam |-> "foreign", ents |-> es, end |-> e, views |-> vs, plan |-> <<"read">>]
DirViews == <<"mem", "seek", "fs">>
AllViews == <<"mem", "seek", "fs", "stream">>
Plain == [m |-> "fast", sz |-> "tiny"]
NoEnd == [cmt |-> "short"]
Around(x) == { <<x>>, <<x, Plain>>, <<Plain, x>>, <<Plain, x, Plain>> }
Between(x) == <<Plain, x, Plain>>
SubsetSeqs(S) == { SetToSeq(T) : T \in SUBSET S }

(* arrangements: the directory's order differs from the file's, gaps between entries, bytes after the directory *)
Arrs == { <<"perm">>, <<"gaps">>, <<"after">>, <<"perm", "gaps">>, <<"perm", "gaps", "after">> }
Apis2 == {"end", "string"}
Chk(e, api, pre, rd, dmg) == [fam |-> "checked", ents |-> <<e>>, api |-> api, pre |-> pre, reader |-> rd, dmg |-> dmg]
C05 == LET rds == {"mem", "seek", "stream"} pres == {"none", "one", "some", "but1", "all"} IN
       { Chk([m |-> m, sz |-> z, text |-> t, crc |-> c], api, pre, rd, "") :
            m \in {"stored", "deflate", "zstd"}, z \in {"tiny"}, t \in BOOLEAN, c \in {"ok", "zero", "flip", "one", "prefix", "void"}, api \in Apis2, pre \in pres, rd \in rds }
       \cup { Chk([m |-> m, sz |-> z, crc |-> c], api, pre, rd, "") :
            m \in Methods, z \in {"zero", "one", "big"}, c \in {"ok", "zero", "flip", "void"}, api \in Apis2, pre \in {"none", "some", "all"}, rd \in rds }
       \cup { Chk([m |-> m, sz |-> z, text |-> t], api, pre, rd, d) @@ [rep |-> r] :
            m \in {"stored", "deflate", "bz", "zstd"}, z \in {"mid"}, t \in BOOLEAN, api \in Apis2, pre \in {"none", "some"}, rd \in rds, d \in {"flip", "last", "first", "swap"}, r \in Reps(Q(2, 12)) }
       \cup { Chk([m |-> m, sz |-> "mid", crc |-> c], "end", pre, rd, "") @@ [rsched |-> s] :
            m \in {"stored", "deflate"}, c \in {"ok", "zero", "flip"}, pre \in {"none", "some"}, rd \in {"seek", "stream"}, s \in {<<1>>, <<0, 7>>, <<300, 0, 1>>} }
       \cup { [fam |-> "hash", ents |-> <<[m |-> m, sz |-> z]>>, reader |-> rd, rep |-> r] : m \in Methods, z \in {"zero", "one", "mid", "big", "huge"}, rd \in rds, r \in Reps(Q(2, 10)) }
       \cup { Chk([m |-> m, sz |-> "huge", crc |-> c], api, pre, rd, "") @@ [rep |-> r] :
            m \in {"stored", "deflate"}, c \in {"ok", "flip"}, api \in Apis2, pre \in {"none", "some", "all"}, rd \in rds, r \in Reps(Q(1, 4)) }
       \cup { Chk([m |-> m, sz |-> "giant", crc |-> c], api, pre, rd, "") : m \in {"stored", "deflate"}, c \in {"ok", "flip"}, api \in {"end"}, pre \in {"none", "some"}, rd \in rds }
       \cup { [fam |-> "hash", ents |-> <<[m |-> m, sz |-> "giant"]>>, reader |-> rd] : m \in {"stored", "deflate"}, rd \in rds }
       \cup { Foreign(<<Plain, [m |-> m, sz |-> "mid", crc |-> c, lcrc |-> lc], Plain>>, NoEnd, AllViews) :
            m \in {"stored", "deflate"}, c \in {"ok", "zero", "flip"}, lc \in {"", "zero", "flip"} }

(* every field of every record x extreme values                               *)
Recs == [ lfh |-> {"sig", "flags", "method", "csize", "usize", "namelen", "extralen", "crc", "date", "time", "ver"},
          cdh |-> {"sig", "flags", "method", "csize", "usize", "namelen", "extralen", "commentlen", "disk", "offset", "crc", "date", "time", "made", "ver"},
          eocd |-> {"sig", "disk", "cddisk", "nd", "nt", "cs", "co", "commentlen"},
          z64r |-> {"sig", "size", "disk", "cddisk", "nd", "nt", "cs", "co", "ver"},
          z64l |-> {"sig", "disk", "rel", "disks"} ]
Vals == {"0", "1", "max", "max-1", "max-3", "max-4", "max-21", "half", "half-1", "imax", "imin", "m32", "m32+1", "i32", "m16", "m16-1", "len", "len-1", "len-4", "len+1", "cdo", "cdo+1", "eocd", "rnd", "big", "mid"}
FieldMut(rec, f, w, v) == [how |-> "field", rec |-> rec, field |-> f, which |-> w, at |-> 0, val |-> v]
Hostile(es, e, ms) == [fam |-> "hostile", ents |-> es, end |-> e, muts |-> ms]
HEnts == <<[m |-> "deflate", sz |-> "mid", dfr |-> <<"u", "c", "o">>, ldfr |-> TRUE, up |-> "ok", nm |-> "raw", flag |-> FALSE],
           [m |-> "stored", sz |-> "tiny", xp |-> "both", cm |-> "utf8", uc |-> "ok"], [m |-> "deflate", sz |-> "tiny", dd |-> "sig"]>>
HEnd == [cmt |-> "short", z64 |-> TRUE, dfr |-> <<"nd", "nt", "cs", "co">>, sector |-> 8]
HEnd2 == [cmt |-> "short"]
AllFieldMuts == UNION { { FieldMut(rec, f, w, v) : f \in Recs[rec], w \in {"first", "last"}, v \in Vals } : rec \in DOMAIN Recs }
(* every byte position of the extra areas, as a length or value               *)
ExtraMuts == { [how |-> "field", rec |-> rec, field |-> "extra", which |-> w, at |-> a, val |-> v] :
                rec \in {"lfh", "cdh"}, w \in {"first", "last"}, a \in 0..Q(40, 90), v \in {"0", "max", "half", "rnd", "len", "mid"} }
C06 == { Hostile(HEnts, HEnd, <<m>>) : m \in AllFieldMuts }
       \cup { Hostile(HEnts, HEnd2, <<m>>) : m \in { x \in AllFieldMuts : x.rec \in {"eocd", "cdh", "lfh"} } }
       \cup { Hostile(HEnts, HEnd, <<m>>) : m \in ExtraMuts }
       \cup { Hostile(HEnts, e, <<a, b>>) @@ [rep |-> r] :
                e \in {HEnd, HEnd2}, r \in Reps(Q(6, 60)),
                a \in { [how |-> h, k |-> k] : h \in {"flips", "cut", "dup", "del", "noise", "zeros"}, k \in {1, 3, 12} },
                b \in { [how |-> h, k |-> 2] : h \in {"flips", "cut", "dup"} } }
       \cup (IF Thorough
             THEN { Hostile(HEnts, HEnd, <<a, b>>) : a \in { x \in AllFieldMuts : x.rec \in {"eocd", "z64r", "z64l"} /\ x.which = "first" /\ x.val \in {"0", "max", "imax", "len", "big", "max-3"} },
                                                     b \in { x \in AllFieldMuts : x.which = "first" /\ x.val \in {"0", "max", "len", "mid"} } }
             ELSE { Hostile(HEnts, HEnd, <<a, b>>) : a \in { x \in AllFieldMuts : x.rec \in {"eocd", "z64r"} /\ x.field \in {"nt", "nd", "co"} /\ x.which = "first" /\ x.val \in {"0", "max", "imax", "big"} },
                                                     b \in { x \in AllFieldMuts : x.which = "first" /\ x.val \in {"max", "mid"} } })
       \cup { [fam |-> "hostile", ents |-> es, end |-> e, muts |-> <<>>] :
                es \in { <<[Plain EXCEPT !.m = "deflate"] @@ [mal |-> a, lmal |-> b]>> : a \in {"over1", "overmax", "overbig", "overz", "over0", "trail1", "trail2", "trail3"}, b \in {"over1", "overmax", "overz", "trail3"} },
                e \in {HEnd, HEnd2} }
       \* no archive at all: pieces of signatures (P = 80, K = 75) at the edges of what the readers look at
       \cup { [fam |-> "bytes", toks |-> q, fill |-> f, long |-> Thorough] : q \in SeqsOf({80, 75, 5, 6}, 1, 3) \cup SeqsOf({80, 75, 1, 2, 3, 4, 7, 8, 0, 255}, 1, 2)
                                                        \cup { <<80, 75, a, b>> : a \in 0..8, b \in 0..8 }, f \in Q({"zero"}, {"zero", "ff", "rnd"}) }

RScheds == { <<1>>, <<0, 1>>, <<0, 0, 3>>, <<7, 1, 0, 100>>, <<2, 0>>, <<29, 1, 0>>, <<4096, 0>>, <<1, 2, 3, 5, 8, 13, 0, 21>>, <<2047, 0, 2049>> }
SchedOf(src, s, p) == [fam |-> "sched", rsched |-> s, plan |-> p, views |-> <<"seek", "stream", "tokio">>] @@ src
SPlans == { <<"read">>, <<"skip", "part">>, <<"part_wo", "checked", "inner">> }
C07 == LET w(md, q, c) == [mode |-> md, ops |-> [ i \in 1..Len(q) |-> [k |-> q[i], sz |-> "mid", m |-> "any"] ], cmt |-> c]
           f(es, e) == [ents |-> es, end |-> e] IN
       { SchedOf(w(md, q, c), s, p) : md \in Q({"auto"}, Modes), q \in SeqsUpTo(Kinds, 2), c \in {"short", "mid"}, s \in RScheds, p \in Q({<<"read">>, <<"part_wo", "checked", "inner">>}, SPlans) }
       \cup { SchedOf([mode |-> "auto", ops |-> <<[k |-> "W", m |-> m, sz |-> z], [k |-> "S", m |-> m, sz |-> z], [k |-> "W", m |-> "stored", sz |-> "one"]>>, cmt |-> "none"], s, <<"read", "checked">>) :
                m \in Methods, z \in {"zero", "one", "big"}, s \in RScheds }
       \cup { SchedOf(f(Between([m |-> "deflate", sz |-> "mid", dd |-> d, ldfr |-> l, up |-> "ok", nm |-> "raw"]), [cmt |-> "mid", z64 |-> z, dfr |-> IF z THEN <<"nt", "nd", "co">> ELSE <<>>, sector |-> 5]), s, <<"read", "skip">>) :
                d \in {"sig", "nosig"}, l \in BOOLEAN, z \in BOOLEAN, s \in RScheds }
       \* errors too must not depend on the delivery
       \cup { SchedOf(f(HEnts, e), s, <<"read", "skip">>) @@ [muts |-> <<m>>] : e \in {HEnd, HEnd2}, s \in {<<1>>, <<7, 1, 0, 100>>, <<4096, 0>>},
                m \in { x \in AllFieldMuts : x.which = "first" /\ x.val \in Q({"max", "1", "len"}, Vals) } }
       \cup { SchedOf(w("auto", q, "short"), s, <<"read">>) @@ [cut |-> c] : q \in {<<"W", "S", "W">>, <<"S">>}, s \in {<<1>>, <<7, 1, 0, 100>>}, c \in {0, 3, 10, 25, 40, 50, 60, 75, 90, 97, 99} }
       \cup { SchedOf([mode |-> "auto", ops |-> <<[k |-> "W", sz |-> "tiny", m |-> "stored"]>>, cmt |-> "max"], s, <<"read">>) : s \in RScheds }
       \cup { SchedOf([mode |-> "auto", ops |-> <<[k |-> "W", sz |-> "giant", m |-> m], [k |-> "S", sz |-> "giant", m |-> "deflate"], [k |-> "W", sz |-> "tiny"]>>, cmt |-> "short"], s, p) :
                m \in {"stored", "deflate"}, s \in {<<7000, 0, 100000>>, <<2047, 0, 2049>>}, p \in {<<"read">>, <<"skip">>} }
       \cup { SchedOf([mode |-> "auto", ops |-> ManyOps(300, 1), cmt |-> "short"], s, p) : s \in {<<7, 1, 0, 100>>, <<4096, 0>>}, p \in {<<"read">>, <<"skip">>} }
       \* the directory in another order than the file, bytes nobody claims
       \cup { SchedOf(f([ i \in 1..4 |-> [m |-> "fast", sz |-> "mid"] ], [cmt |-> "mid", arr |-> a]), s, <<"read">>) @@ [rep |-> r] : a \in Arrs, s \in RScheds, r \in Reps(Q(1, 5)) }

UniHow == {"ok", "same", "void", "badcrc", "zerocrc", "unicrc", "nonutf8", "ver2", "ver0"}
BasicNm == {"ascii", "blank", "longraw", "dir", "udir", "bdir", "utf8", "raw", "long", "same", "medium", "odd", "bytes"}
C10 == LET v == <<"mem", "seek", "fs", "stream", "raw">> IN
       { x @@ [plan |-> <<"read">>] : x \in Texts(Kinds, {"auto"}, v) \cup Texts({"W", "S"}, {"no64", "force64"}, v) }
       \cup { Foreign(<<Plain, [m |-> "fast", sz |-> "one", nm |-> a, flag |-> f, up |-> u, ufirst |-> uf, xp |-> x], Plain>>, NoEnd, AllViews) :
                a \in BasicNm, f \in BOOLEAN, u \in UniHow \cup {""}, uf \in BOOLEAN, x \in {"", "both"} }
       \cup { Foreign(<<[m |-> "fast", sz |-> "one", nm |-> a, flag |-> f, up |-> u, cm |-> c, uc |-> w], Plain>>, NoEnd, AllViews) :
                a \in {"ascii", "utf8", "raw"}, f \in BOOLEAN, u \in {"", "ok", "badcrc"}, c \in {"none", "ascii", "utf8", "raw", "long"}, w \in UniHow \cup {""} }
       \* the flag differs between the local and the central header
       \cup { Foreign(<<[m |-> "fast", sz |-> "one", nm |-> a, flag |-> FALSE, cgp |-> 2048, up |-> u, cm |-> c], Plain>>, NoEnd, AllViews) :
                a \in BasicNm, u \in {"", "ok"}, c \in {"none", "ascii", "utf8", "raw"} }

C11 == LET d == Q(211, 37) IN
       \* comment lengths in steps, and every length around the reader's window boundaries
       { [fam |-> "find", from |-> a, to |-> a + 24, step |-> 1, n |-> nn, decoy |-> dc, z64 |-> z] :
            a \in {0, 24, 2000, 2024, 2048, 2060, 4060, 4084, 4096, 6100, 8170, 65488, 65512}, nn \in {0, 1, 3}, dc \in BOOLEAN, z \in BOOLEAN }
       \cup { [fam |-> "find", from |-> a, to |-> a + 4096, step |-> d, n |-> nn, decoy |-> TRUE, z64 |-> FALSE] :
            a \in { 4096 * k : k \in 0..14 }, nn \in {0, 2} }
       \* signatures, and whole records that do not end with the file, inside the comment
       \cup { [fam |-> "find", from |-> a, to |-> a + 16, step |-> 1, n |-> nn, decoy |-> dc, z64 |-> z, sigs |-> TRUE, rep |-> r] :
            a \in {4, 20, 2000, 2016, 2032, 2048, 2064, 4060, 4076, 4092, 6100, 65519}, nn \in {0, 2}, dc \in BOOLEAN, z \in BOOLEAN, r \in Reps(Q(2, 20)) }
       \cup { [fam |-> "noend", lens |-> ls, dense |-> dn] : dn \in BOOLEAN,
            ls \in { <<0, 1, 2, 3, 4, 21, 22, 23>>, <<2047, 2048, 2049, 2050, 2051, 2052>>, <<4093, 4094, 4095, 4096, 4097, 4100>>, <<65555, 65556, 65557, 65558, 65559>>, <<70000, 131072, 200000>> } }
       \cup { Foreign(es, [cmt |-> c, prefix |-> p, z64 |-> z, dfr |-> IF z THEN <<"nt", "co">> ELSE <<>>], DirViews) :
            es \in { <<>>, <<Plain>>, <<Plain, Plain>> }, c \in {"", "blank", "short", "bin", "utf8", "odd", "bytes", "mid", "max", "sig"}, p \in {"", "stub", "decoy"}, z \in BOOLEAN }
       \cup { Foreign(es, [cmt |-> c, sig |-> "none"], DirViews) : es \in { <<>>, <<Plain @@ [text |-> TRUE]>> }, c \in {"", "short", "mid"} }
       \cup { Prog(md, <<[k |-> "W", m |-> "stored", sz |-> z]>>, c, <<"mem", "seek", "fs">>) : md \in Modes, z \in {"zero", "big"}, c \in ACmts }
       \cup (IF Thorough THEN { [fam |-> "find", from |-> 512 * k, to |-> 512 * (k + 1), step |-> 1, n |-> 1, decoy |-> FALSE, z64 |-> FALSE] : k \in 0..127 } ELSE {})

AOp(a, i, h, n) == [a |-> a, i |-> i, h |-> h, n |-> n]
AOps == { AOp("open", i, 0, "") : i \in {0, 1, 2} } \cup { AOp("read", 0, h, n) : h \in {0, 1}, n \in {"one", "half", "all"} } \cup { AOp("drop", 0, h, "") : h \in {0, 1} }
AOps2 == { AOp("open", i, 0, "") : i \in {0, 2, 9} } \cup { AOp("move", 1, 0, "") } \cup { AOp("read", 0, h, n) : h \in {0, 1}, n \in {"half"} } \cup { AOp("drop", 0, 1, "") }
ASrc(k) == CASE k = "w" -> [mode |-> "auto", ops |-> <<[k |-> "W", m |-> "deflate", sz |-> "big"], [k |-> "S", m |-> "any", sz |-> "mid"], [k |-> "P", m |-> "stored", sz |-> "mid"], [k |-> "Q", m |-> "zstd", sz |-> "tiny"]>>, cmt |-> "short"]
             [] k = "g" -> [ents |-> [ i \in 1..5 |-> [m |-> IF i = 3 THEN "bz" ELSE "fast", sz |-> IF i % 2 = 0 THEN "mid" ELSE "big", nm |-> "same"] ], end |-> [arr |-> <<"perm", "gaps">>]]
             [] k = "G" -> [mode |-> "auto", ops |-> <<[k |-> "W", m |-> "stored", sz |-> "giant"], [k |-> "S", m |-> "deflate", sz |-> "giant"], [k |-> "P", m |-> "zstd", sz |-> "giant"], [k |-> "W", m |-> "stored", sz |-> "giant"]>>, cmt |-> "short"]
             [] k = "b" -> [ents |-> <<[m |-> "stored", sz |-> "mid", nm |-> "big", xp |-> "big", cm |-> "big"], [m |-> "deflate", sz |-> "mid", nm |-> "big", xp |-> "big"], [m |-> "stored", sz |-> "tiny", xp |-> "big"], [m |-> "bz", sz |-> "mid", nm |-> "big"]>>, end |-> [cmt |-> "max"]]
             [] k = "m" -> [mode |-> "auto", ops |-> ManyOps(300, 1), cmt |-> "short"]
             [] k = "f" -> [ents |-> <<[m |-> "stored", sz |-> "big", xp |-> "lonly"], [m |-> "deflate", sz |-> "mid", xp |-> "cafter"], [m |-> "stored", sz |-> "zero"], [m |-> "bz", sz |-> "mid"]>>, end |-> [prefix |-> "stub"]]
C12 == { [fam |-> "access", on |-> o, acts |-> q \o <<AOp("read", 0, 0, "all"), AOp("open", 3, 0, ""), AOp("read", 0, 1, "all")>>] @@ ASrc(sk) : sk \in {"g", "b"}, o \in {"mem", "seek", "clones", "fs"}, q \in SeqsOf(AOps, 1, Q(1, 2)) }
       \cup { [fam |-> "access", on |-> o, acts |-> q \o <<AOp("read", 0, 0, "all"), AOp("open", 3, 0, ""), AOp("read", 0, 1, "all")>>] @@ ASrc("G") : o \in {"mem", "seek", "clones", "fs"}, q \in SeqsOf(AOps2, 1, Q(1, 2)) }
       \cup { [fam |-> "access", on |-> o, acts |-> <<AOp("open", i, 0, ""), AOp("open", j, 0, ""), AOp("read", 0, 0, "half"), AOp("read", 0, 1, "all"), AOp("open", i, 0, ""), AOp("read", 0, 0, "all"), AOp("read", 0, 2, "all")>>] @@ ASrc("m") :
                o \in {"mem", "seek", "clones", "fs"}, i \in {0, 255, 256, 299}, j \in {1, 257, 300, 511} }
       \cup { [fam |-> "access", on |-> o, acts |-> q \o <<AOp("read", 0, 0, "all"), AOp("open", 3, 0, ""), AOp("open", 4, 0, ""), AOp("read", 0, 0, "all"), AOp("read", 0, 1, "all")>>] @@ ASrc(k) :
            o \in {"mem", "seek", "clones"}, q \in SeqsOf(AOps, 2, Q(3, 3)), k \in Q({"w"}, {"w", "f"}) }
       \cup { [fam |-> "access", on |-> o, acts |-> q \o <<AOp("read", 0, 0, "all"), AOp("open", 3, 0, ""), AOp("read", 0, 1, "all")>>] @@ ASrc("f") : o \in {"mem", "seek", "clones"}, q \in SeqsOf(AOps, 1, 2) }
       \cup { [fam |-> "access", on |-> "fs", acts |-> q \o <<AOp("read", 0, 0, "all"), AOp("open", 3, 0, ""), AOp("read", 0, 1, "all")>>] @@ ASrc(k) : q \in SeqsOf(AOps, 1, Q(2, 3)), k \in {"w", "f"} }
       \cup { [fam |-> "access", on |-> o, acts |-> q, rsched |-> s] @@ ASrc(k) : o \in {"seek", "clones"}, q \in SeqsOf(AOps2, 4, 4), k \in {"f"}, s \in Q({<<0, 700>>}, {<<1>>, <<0, 700>>, <<4096>>}) }
       \cup { [fam |-> "access", on |-> "threads", rounds |-> 12, rep |-> r] @@ ASrc(k) : k \in {"w", "f"}, r \in Reps(Q(20, 200)) }

MNums == {1, 2, 3, 4, 5, 6, 7, 10, 11, 13, 15, 16, 18, 19, 20, 92, 94, 96, 97, 98, 99, 100, 255, 256, 264, 269, 349, 351, 32768, 65535}
SigHow == {"zero", "lfh", "cdh", "eocd", "z64", "dd", "swap", "bit", "rnd"}
Mal == {"over1", "overmax", "overbig", "overz", "over0", "trail1", "trail2", "trail3"}
UniBad == {"short4", "short1", "empty"}
C16 == { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", mnum |-> x, conly |-> c]) : x \in MNums, c \in BOOLEAN } }
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", lmnum |-> x]) : x \in MNums } }
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", csig |-> x]) : x \in {"zero", "dd", "swap", "bit", "rnd"} } }
       \cup { Foreign(es, NoEnd, DirViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", csig |-> x]) : x \in SigHow \ {"cdh"} } }
       \* "lsig" values a streaming reader takes for the end of the entries are left out
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", lsig |-> x]) : x \in {"zero", "dd", "swap", "bit", "rnd"} } }
       \cup { Foreign(es, NoEnd, DirViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", lsig |-> x]) : x \in SigHow \ {"lfh"} } }
       \cup { Foreign(es, e, AllViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", mal |-> a, lmal |-> b, xp |-> x]) : a \in Mal \cup {""}, b \in {"", "over1", "overmax", "trail3"}, x \in {"", "before"} }, e \in {NoEnd} }
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", lmal |-> b]) : b \in Mal } }
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", up |-> u, uc |-> c, flag |-> f, nm |-> "raw", cm |-> "raw", xp |-> IF c = "empty" THEN "after" ELSE ""]) : u \in UniBad \cup {"ok"}, c \in UniBad \cup {"ok"}, f \in BOOLEAN } }
       \cup { Foreign(<<Plain>>, [disk |-> a, cdd |-> b], DirViews) : a \in {0, 1, 2, 65534, 65535}, b \in {0, 1, 2, 65534, 65535} }
       \cup { Foreign(<<Plain>>, [disk |-> 0, cdd |-> 0, z64 |-> TRUE, dfr |-> d, zdisk |-> a, zcdd |-> b], DirViews) :
                a \in {0, 1, 65535, 65536, 70000}, b \in {0, 1, 65536, 70000}, d \in { <<"disk", "cdd">>, <<"disk">>, <<"cdd">>, <<>>, <<"disk", "cdd", "nt">> } }
       \cup { Foreign(es, [nd |-> a, nt |-> b], DirViews) : es \in { <<>>, <<Plain>>, <<Plain, Plain, Plain>> }, a \in {0, 1, 2, 300}, b \in {0, 1, 2, 300} }
       \cup { Foreign(<<Plain, Plain, Plain>>, [nd |-> a, nt |-> b] @@ z, DirViews) : a \in {-2, -1}, b \in {-3, 0, 1}, z \in { <<>>, [z64 |-> TRUE, dfr |-> <<>>], [z64 |-> TRUE, dfr |-> <<"nt", "nd">>] } }
       \cup { Foreign(<<Plain, Plain, Plain>>, [nd |-> b, nt |-> a], DirViews) : a \in {-2, -1}, b \in {-3, 0, 1} }
       \cup { Foreign(es, [nd |-> a, nt |-> b, z64 |-> TRUE, dfr |-> d], DirViews) : es \in { <<>>, <<Plain>>, <<Plain, Plain, Plain>> }, a \in {0, 1, 65536}, b \in {0, 1, 65536}, d \in { <<"nt">>, <<"nd">>, <<"nd", "nt">>, <<>> } }
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> m, sz |-> "tiny", enc |-> TRUE, gp |-> g]) : m \in {"stored", "deflate"}, g \in {0, 64, 8192} } }
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> m, sz |-> sz, dd |-> d, ddsizes |-> z, lcrc |-> lc]) : m \in {"stored"}, sz \in {"tiny", "zero"}, d \in {"sig", "nosig"}, z \in BOOLEAN, lc \in {"", "zero", "flip"} } }
       \cup { [fam |-> "access", on |-> o, acts |-> <<AOp("open", i, 0, ""), AOp("open", 1, 0, ""), AOp("read", 0, 0, "all"), AOp("open", j, 0, ""), AOp("open", 0, 0, ""), AOp("read", 0, 0, "all")>>] @@ ASrc(k) :
                o \in {"mem", "fs", "seek", "clones"}, i \in {0, 4, 5, 65536, 1000000}, j \in {4, 5, 99}, k \in {"w", "f"} }
       \cup { [fam |-> "access", on |-> o, acts |-> <<AOp("open", i, 0, ""), AOp("open", i, 0, "")>>, ents |-> <<>>, end |-> NoEnd] : o \in {"mem", "fs", "seek", "clones"}, i \in {0, 1} }

DfrSets == SubsetSeqs({"u", "c", "o"})
C17 == { Foreign([ i \in 1..n |-> [m |-> "fast", sz |-> IF i = 2 THEN "mid" ELSE "tiny", dfr |-> IF i % 2 = 0 THEN d ELSE <<>>, xp |-> IF i % 3 = 0 THEN "lonly" ELSE x] ],
                 [cmt |-> "short", arr |-> a, z64 |-> z, dfr |-> IF z THEN <<"nt", "cs", "co">> ELSE <<>>, sector |-> 4], DirViews) @@ [rep |-> r] :
            n \in {2, 5}, d \in { <<>>, <<"o">>, <<"u", "c", "o">> }, x \in {"", "both"}, a \in Arrs, z \in BOOLEAN, r \in Reps(Q(2, 10)) }
       \cup { Foreign([ i \in 1..n |-> [m |-> "fast", sz |-> "tiny", dfr |-> d, nm |-> IF i % 2 = 0 THEN "same" ELSE "ascii"] ], [cmt |-> "short", z64 |-> z, dfr |-> IF z THEN <<"nt">> ELSE <<>>], AllViews) :
            n \in {255, 256, 300}, d \in { <<>>, <<"o">> }, z \in BOOLEAN }
       \cup \* directory records: every subset of deferred values, other fields around, in any entry
       { Foreign(es, [cmt |-> "short", prefix |-> p], DirViews) :
            es \in UNION { Around([m |-> "fast", sz |-> z, dfr |-> d, xp |-> x, ufirst |-> f, up |-> u, nm |-> "raw"]) : z \in {"zero", "mid"}, d \in DfrSets, x \in {"", "before", "after", "both", "mid0", "dup"}, f \in BOOLEAN, u \in {"", "ok"} }, p \in {"", "stub"} }
       \cup { Foreign(es, NoEnd, DirViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", us |-> w, dfr |-> d, xp |-> x]) : w \in {"big", "mid"}, d \in DfrSets, x \in {"", "both"} } }
       \* the ZIP64 field holds more than the record defers to it
       \cup { Foreign(es, [cmt |-> "short", prefix |-> p], IF p = "" THEN AllViews ELSE DirViews) :
            es \in UNION { Around([m |-> "fast", sz |-> "mid", dfr |-> d, ldfr |-> l, xp |-> x, zx |-> TRUE]) : d \in DfrSets, l \in BOOLEAN, x \in {"", "before", "after"} }, p \in {"", "stub"} }
       \cup { Foreign(es, NoEnd, DirViews) : es \in UNION { Around([m |-> "fast", sz |-> "tiny", dfr |-> d \o <<"d">>, xp |-> x]) : d \in DfrSets, x \in {"", "both"} } }
       \cup { Foreign(<<[m |-> "fast", sz |-> "tiny", dfr |-> a], [m |-> "fast", sz |-> "mid", dfr |-> b], [m |-> "fast", sz |-> "one", dfr |-> c]>>, NoEnd, DirViews) : a \in DfrSets, b \in DfrSets, c \in DfrSets }
       \* local headers
       \cup { Foreign(es, NoEnd, AllViews) : es \in UNION { Around([m |-> m, sz |-> z, ldfr |-> TRUE, dfr |-> d, xp |-> x]) : m \in {"stored", "deflate", "zstd"}, z \in {"zero", "tiny", "mid"}, d \in { <<>>, <<"u", "c">>, <<"u", "c", "o">> }, x \in {"", "before", "both", "lonly"} } }
       \* data descriptors
       \cup { Foreign(es, NoEnd, AllViews) @@ [rep |-> r] : r \in Reps(Q(2, 6)),
                es \in UNION { Around([m |-> m, sz |-> z, dd |-> d, ldfr |-> l, ddsizes |-> s]) : m \in {"deflate", "bz", "zstd", "xz"}, z \in {"zero", "tiny", "mid"}, d \in {"sig", "nosig"}, l \in BOOLEAN, s \in BOOLEAN } }
       \* end records: every subset deferred, every sector length class
       \cup { Foreign(es, [cmt |-> c, z64 |-> TRUE, dfr |-> d, sector |-> k], DirViews) :
            es \in { <<>>, <<Plain>>, <<Plain, Plain, Plain>> }, c \in {"", "short", "mid"}, d \in SubsetSeqs({"nd", "nt", "cs", "co", "disk", "cdd"}), k \in {0, 1, 8, 300} }
       \cup { Foreign(<<Plain>>, [cmt |-> "", z64 |-> FALSE], DirViews) }

CutOps == { <<"W">>, <<"S">>, <<"W", "S">>, <<"S", "W">>, <<"P", "Q">>, <<"Q", "P">>, <<"W", "W">>, <<"W", "S", "W">> }
C18 == { [fam |-> "cuts", mode |-> md, ops |-> [ i \in 1..Len(q) |-> [k |-> q[i], m |-> m, sz |-> z, nm |-> "utf8", cm |-> c] ], cmt |-> "short", stride |-> Q(5, 1)] :
            md \in Modes, q \in CutOps, m \in {"stored", "deflate", "bz", "zstd"}, z \in {"tiny"}, c \in {"none", "ascii"} }
       \cup { [fam |-> "cuts", mode |-> md, ops |-> [ i \in 1..Len(q) |-> [k |-> q[i], m |-> m, sz |-> "mid", nm |-> n, cm |-> "alt"] ], cmt |-> "none", stride |-> Q(41, 3)] :
            md \in {"auto"}, q \in CutOps, m \in {"stored", "deflate", "lzma", "xz"}, n \in {"ascii", "alt", "long"} }
       \* archives of other tools: descriptors without a signature, local ZIP64 fields, end records with extensible data
       \cup { [fam |-> "cuts", ents |-> <<[m |-> "deflate", sz |-> "tiny", dd |-> d, ldfr |-> l, xp |-> x], [m |-> "stored", sz |-> "tiny", xp |-> x, cm |-> "utf8"], [m |-> m, sz |-> "tiny", dd |-> d, nm |-> "raw", up |-> "ok"]>>,
                end |-> e, stride |-> Q(5, 1)] :
            d \in {"", "sig", "nosig"}, l \in BOOLEAN, x \in {"", "both"}, m \in {"deflate", "bz", "zstd"}, e \in {NoEnd, [cmt |-> "bin", z64 |-> TRUE, dfr |-> <<"nt", "nd", "cs", "co">>, sector |-> 9]} }
       \cup { [fam |-> "srcerr", kind |-> k, ents |-> <<[m |-> "deflate", sz |-> "mid", dd |-> d, ldfr |-> l, xp |-> "both"], [m |-> "stored", sz |-> "tiny"], [m |-> "deflate", sz |-> "tiny", dd |-> d], [m |-> "bz", sz |-> "tiny", dd |-> d]>>,
                end |-> [cmt |-> "bin", z64 |-> TRUE, dfr |-> <<"nt", "nd", "cs", "co">>, sector |-> 9], stride |-> Q(5, 1)] :
            k \in {"bad", "fail", "nth", "failstream", "nthstream"}, d \in {"", "sig", "nosig"}, l \in BOOLEAN }
       \cup { [fam |-> "srcerr", kind |-> k, mode |-> md, ops |-> [ i \in 1..Len(q) |-> [k |-> q[i], m |-> m, sz |-> "tiny", nm |-> "alt", cm |-> "alt"] ], cmt |-> "short", stride |-> Q(3, 1)] :
            k \in {"bad", "fail", "nth"}, md \in Modes, q \in CutOps, m \in {"stored", "deflate"} }
       \cup { [fam |-> "srcerr", kind |-> k, mode |-> md, ops |-> [ i \in 1..Len(q) |-> [k |-> q[i], m |-> m, sz |-> "mid", nm |-> "alt", cm |-> "alt"] ], cmt |-> "short", stride |-> Q(7, 1)] :
            k \in {"failstream", "nthstream"}, md \in Modes, q \in CutOps, m \in {"deflate", "zstd"} }

(* Sizes, offsets, counts around the classic limits.  sz: size of the data;   *)
(* us: declared uncompressed size (precompressed entries); upto: as long as   *)
(* it takes for the next record to start there.                               *)
Edge == {"m-1", "m", "m+1"}
Edge2 == {"m-2", "m-1", "m", "m+1", "m+2"}
Small4 == [k |-> "W"]
C04 == { Lim(md, <<Small4, [k |-> k, sz |-> "100", us |-> u], [k |-> j]>>, 5, TRUE) :
            md \in Modes, k \in {"P", "Q"}, j \in {"W", "S"}, u \in {"m-2", "m-1", "m", "m+1", "m+2", "e33", "e40", "max-1", "max"} }
       \cup { Lim(md, <<[k |-> k, sz |-> z], [k |-> "W"]>>, 3, k = "W" /\ z = "m+1") : md \in Modes, k \in Q({"W", "S", "Q"}, Kinds), z \in Q(Edge, Edge2) }
       \cup { Lim(md, <<[k |-> k, upto |-> t], [k |-> j], [k |-> "P", sz |-> "7", us |-> u]>>, 0, FALSE) :
                md \in Modes, k \in Q({"P"}, Kinds), t \in Q(Edge, Edge2), j \in Kinds, u \in Q({"7"}, {"7", "m", "m+1"}) }
       \cup { Lim(md, <<[k |-> k, upto |-> t]>>, 9, FALSE) : md \in Modes, k \in Q({"P", "S"}, Kinds), t \in Edge2 }
       \* an entry that starts below the limit and ends beyond it: the directory is the first that needs ZIP64
       \cup { Lim(md, <<[k |-> "W"], [k |-> "P", upto |-> t], [k |-> j]>>, 4, FALSE) : md \in Modes, t \in Q({"m-20"}, {"m-200", "m-90", "m-40", "m-30", "m-20", "m-10", "m-2"}), j \in Kinds }
       \cup { Lim("auto", <<[k |-> "P", upto |-> "m-500"], [k |-> "W"], [k |-> "S"], [k |-> "Q", sz |-> "m+1"], [k |-> "P", sz |-> "9", us |-> "m"], [k |-> "S"], [k |-> "W"]>>, 0, FALSE) }
       \cup { [fam |-> "count", mode |-> md, n |-> nn, k |-> k] : md \in Modes, nn \in {65534, 65535, 65536, 65537}, k \in Q({"W", "S"}, {"W", "S", "P", "Q", "mix"}) }
       \cup { [fam |-> "count", mode |-> md, n |-> nn, k |-> "mix"] : md \in Modes, nn \in {0, 1, 2, 255, 256, 257, 1000} }
       \cup { Prog(md, Small(q), c, <<"mem", "raw">>) : md \in Modes, q \in SeqsUpTo(Kinds, 2), c \in {"none", "short"} }
       \cup Heavy(Kinds, Modes, <<"mem", "raw">>)
       \cup { [fam |-> "bigdir", mode |-> md, size |-> z] : md \in Modes, z \in Q({"m+1"}, {"m-1", "m", "m+1", "m+70000"}) }

(* Lengths around what a 16-bit length field can hold.  nl/cl: stored length  *)
(* of name/comment ("altu": of its Unicode field), xl: of other extra fields. *)
Lens == {65534, 65535, 65536, 65537} \cup Q({131071, 131072}, {65500, 65533, 65538, 70000, 131070, 131071, 131072, 131073, 196608})
XLens == {65503, 65504, 65511, 65512, 65515, 65519, 65520} \cup Lens
SmallW == [k |-> "W", m |-> "stored", sz |-> "tiny", nm |-> "ascii", cm |-> "none"]
C13 == LET v == <<"mem", "raw">>
           p(md, o) == Prog(md, <<SmallW, o @@ [m |-> "stored", sz |-> "tiny", nm |-> "ascii", cm |-> "none"], SmallW>>, "short", v)
       IN { p(md, [k |-> k, nl |-> l, nk |-> t]) : md \in Modes, k \in Kinds, l \in Lens, t \in {"u", "mb", "raw", "alt"} }
          \cup { p(md, [k |-> k, cl |-> l, ck |-> t]) : md \in Modes, k \in Kinds, l \in Lens, t \in {"u", "mb", "raw", "alt"} }
          \cup { p(md, [k |-> k, nl |-> l, nk |-> "altu"]) : md \in Modes, k \in Kinds, l \in XLens }
          \cup { p(md, [k |-> k, cl |-> l, ck |-> "altu"]) : md \in Modes, k \in Kinds, l \in XLens }
          \cup { p(md, [k |-> k, xl |-> l]) : md \in Modes, k \in Kinds, l \in XLens }
          \cup { p(md, [k |-> k, nl |-> a, nk |-> t, cl |-> b, ck |-> u, xl |-> c]) :
                    md \in Q({"auto", "no64"}, Modes), k \in {"W", "S"}, a \in {65535, 65536}, t \in {"u", "raw"}, b \in {65535, 65536}, u \in {"u", "raw"}, c \in {0, 65535, 65536} }
          \* the two Unicode fields and other fields share one area
          \cup { p(md, [k |-> k, nl |-> 20000 + d, nk |-> "altu", cl |-> 20000, ck |-> "altu", xl |-> 25535 + e]) :
                    md \in Modes, k \in Kinds, d \in {0, 1}, e \in Q({0, 1}, {0, 1, 2, 3}) }
          \* a long name that is UTF-8 gets a Unicode field of its own when the comment is not
          \cup { p(md, [k |-> k, nl |-> l, nk |-> "mb", cl |-> 5, ck |-> "raw"]) : md \in Modes, k \in Kinds, l \in {65525, 65526, 65527, 65535} }
          \cup BeyondHeavy(Q({"auto"}, {"auto", "no64"}), Q({65507, 65515, 65523, 65524, 65535, 65536}, 65500..65537))
          \cup { Prog(md, ops, "none", v) @@ [cmtn |-> l, cmtmb |-> b] : md \in Modes, ops \in { <<>>, <<SmallW>>, <<SmallW, [SmallW EXCEPT !.k = "S"]>> }, l \in Lens \cup {65533, 262144}, b \in BOOLEAN }

(* Copying entries: sources of every sort, generations of (reader, mode, kind)*)
Gen(v, md, k) == [via |-> v, mode |-> md, k |-> k]
CopySrc == { [ents |-> <<[m |-> m, sz |-> z, dfr |-> d, ldfr |-> ld, xp |-> x, nm |-> a, flag |-> f, up |-> u, cm |-> c, uc |-> w, dd |-> dd], [m |-> "fast", sz |-> "tiny", xp |-> "both"]>>,
               end |-> [cmt |-> "short", z64 |-> (d # <<>>), dfr |-> <<>>]] :
              m \in {"deflate"}, z \in {"mid"}, d \in { <<>>, <<"u", "c", "o">>, <<"o">> }, ld \in BOOLEAN, x \in {"", "both", "mid0", "dup"}, a \in {"ascii", "raw"}, f \in {FALSE}, u \in {"", "ok"}, c \in {"ascii", "raw"}, w \in {"", "ok"}, dd \in {"", "sig"} }
CopySrc2 == { [ents |-> <<[m |-> m, sz |-> z, xp |-> x, nm |-> "utf8", flag |-> TRUE, dfr |-> d, cm |-> c]>>, end |-> [cmt |-> ""]] :
              m \in Methods, z \in {"zero", "tiny", "big"}, x \in {"before", "after", "dup"}, d \in { <<>>, <<"u">>, <<"c", "o">> }, c \in {"none", "utf8", "long"} }
CopyMore == { [ents |-> [ i \in 1..4 |-> [m |-> "fast", sz |-> "mid", xp |-> "both", nm |-> "same"] ], end |-> [cmt |-> "short", arr |-> a]] : a \in Arrs }
            \cup { [mode |-> "auto", ops |-> ManyOps(300, 1), cmt |-> "none"], [mode |-> "auto", ops |-> <<[k |-> "W", m |-> "stored", sz |-> "giant"], [k |-> "S", m |-> "deflate", sz |-> "giant"], [k |-> "W"]>>, cmt |-> "none"] }
CopyOwn == { [mode |-> md, ops |-> [ i \in 1..Len(q) |-> [k |-> q[i], sz |-> "mid"] ], cmt |-> "none"] : md \in Modes, q \in SeqsOf(Kinds, 1, 2) }
C15 == { [fam |-> "copy", gens |-> <<Gen(v, md, k), Gen("seek", "auto", "mix")>>] @@ src : src \in CopyMore, v \in {"mem", "seek"}, md \in {"auto", "no64"}, k \in {"W", "Q", "mix"} }
       \cup { [fam |-> "copy", gens |-> <<Gen(v, md, k)>>] @@ src : src \in CopySrc, v \in Q({"mem"}, {"mem", "seek"}), md \in Q({"auto", "no64"}, Modes), k \in Q({"mix"}, Kinds) }
       \cup { [fam |-> "copy", gens |-> <<Gen(v, md, k), Gen("mem", md2, "mix")>>] @@ src : src \in { x \in CopySrc : x.ents[1].nm = "raw" /\ x.ents[1].cm = "ascii" /\ x.ents[1].xp # "mid0" }, v \in {"mem", "stream"}, md \in Modes, k \in Q({"W", "S"}, Kinds), md2 \in Q({"auto"}, Modes) }
       \cup { [fam |-> "copy", gens |-> <<Gen("mem", md, k), Gen("seek", "auto", "mix")>>] @@ src : src \in CopySrc2, md \in Q({"auto"}, Modes), k \in Kinds }
       \cup { [fam |-> "copy", gens |-> <<Gen(v, md, k), Gen("seek", md2, k2)>>, rep |-> r] @@ src : src \in CopyOwn, v \in {"mem"}, md \in Modes, k \in Q({"mix"}, Kinds), md2 \in Q({"no64", "auto"}, Modes), k2 \in Q({"W", "Q"}, Kinds), r \in Reps(Q(1, 2)) }
       \cup { [fam |-> "copy", gens |-> [ i \in 1..n |-> Gen(IF i % 2 = 0 THEN "mem" ELSE "seek", IF i % 3 = 0 THEN "no64" ELSE "auto", "mix") ], rep |-> r] @@ src : src \in { x \in CopySrc : x.ents[1].xp = "both" /\ x.ents[1].dfr # <<>> }, n \in {Q(4, 8)}, r \in Reps(Q(1, 3)) }

(* Every date word and every time word; every day; every second; sequences of *)
(* setters and all orders of the six.                                         *)
Setters == {"year", "month", "day", "hour", "minute", "second"}
SetCalls(vs) == [f : Setters, v : vs]
Perms(S) == { q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j] }
Bld(st, q) == [fam |-> "build", start |-> st, calls |-> q]
C14 == { [fam |-> "dos", what |-> w, hi |-> h] @@ [rep |-> r] : w \in {"date", "time"}, h \in 0..255, r \in Reps(Q(1, 8)) }
       \cup { [fam |-> "chrono", kind |-> "days", year |-> y, rep |-> r] : y \in 1980..2107, r \in Reps(Q(1, 8)) }
       \cup { [fam |-> "chrono", kind |-> "secs", hour |-> h, rep |-> r] : h \in 0..47, r \in Reps(Q(1, 8)) }
       \cup { Bld(st, q) : st \in {"new", "default", "ones", "word"}, q \in SeqsUpTo(SetCalls({"lo", "mid", "hi"}), 2) }
       \cup { Bld(st, q) : st \in {"new", "ones", "word"}, q \in SeqsOf(SetCalls(Q({"rnd"}, {"rnd", "lo", "hi"})), 3, 3) }
       \cup { Bld(st, [ i \in 1..6 |-> [f |-> p[i], v |-> v] ]) : st \in {"new", "word"}, p \in Perms(Setters), v \in Q({"rnd"}, {"rnd", "lo", "hi"}) }
       \cup { Bld(st, [ i \in 1..Len(q) |-> [f |-> q[i], v |-> "rnd"] ]) @@ [rep |-> r] : st \in {"new", "word"}, q \in { <<"year", "month", "day", "hour", "minute", "second", "year", "day", "second", "month", "hour", "minute">> }, r \in Reps(Q(100, 2000)) }

(* Cases that show a recorded finding (KNOWN_FINDINGS.jsonl), and only it.    *)
Known == CASE IOEnv.ZV_PROP = "C03" -> { Prog("force64", <<[k |-> "S", m |-> "deflate", sz |-> "tiny", nm |-> "ascii", cm |-> "none"]>>, "none", <<"strict">>) @@ [kf |-> "C03-descriptor"] }
           [] IOEnv.ZV_PROP = "C10" -> { Prog("auto", <<SmallW, [SmallW EXCEPT !.cm = "loc"]>>, "none", <<"mem">>) @@ [kf |-> "C10-locator"] }
           [] IOEnv.ZV_PROP = "C15" -> { [fam |-> "copy", gens |-> <<Gen("mem", "auto", "W")>>, ents |-> <<[m |-> "stored", sz |-> "tiny", xp |-> "end0"]>>, end |-> [cmt |-> ""], kf |-> "C15-empty-field"] }
           [] IOEnv.ZV_PROP = "C16" -> { Foreign(<<[m |-> "stored", sz |-> "tiny", nm |-> "raw", up |-> "empty"]>>, NoEnd, <<"mem">>) @@ [kf |-> "C16-empty-field"] }
           [] OTHER -> {}

---------------------------------------------------------------------------
(* Random walks through the same alphabet: long programs, entries with many   *)
(* deviations at once, random schedules, plans and access sequences.  TLC's   *)
(* random choices follow -seed (VERIF_SEED).                                  *)
R(S) == RandomElement(S)
Often(p) == RandomElement(1..100) <= p
Opt(f, S, p) == IF Often(p) THEN f :> R(S) ELSE <<>>
RSeq(a, b, Op(_)) == LET n == TLCEval(R(a..b)) IN TLCEval([ i \in 1..n |-> Op(i) ])
Walks(n, C(_)) == { TLCEval(C(r)) : r \in Reps(n) }

ROpPlain(i) == [k |-> R(Kinds)] @@ Opt("sz", {"huge", "zero", "one"}, 15) @@ Opt("api", Apis \ {"flush"}, 30) @@ Opt("ch", Chunkings, 30) @@ Opt("m", Methods, 30)
                 @@ Opt("nm", Names, 30) @@ Opt("cm", Cmts, 30)
ROpWild(i) == IF Often(60) THEN ROpPlain(i) ELSE R(Wild)
RSched(z) == RSeq(1, 6, LAMBDA i : R({0, 0, 1, 2, 3, 7, 30, 64, 500, 2048, 4096, 8192}))
RCmt(z) == R(ACmts)
RPlan(z) == RSeq(1, 6, LAMBDA i : R(IF Often(10) THEN Acts ELSE Acts \ {"done0", "donepart"}))
LongProg(vs) == Prog(R(Modes), RSeq(4, 14, ROpPlain), RCmt(0), vs) @@ [plan |-> RPlan(0)] @@ (IF Often(50) THEN [rsched |-> RSched(0)] ELSE <<>>)
                 @@ (IF Often(30) THEN [sched |-> RSched(0)] ELSE <<>>) @@ Opt("tok", {TRUE}, 25)
WildProg(vs) == Prog(R(Modes), RSeq(3, 10, ROpWild), RCmt(0), vs) @@ [plan |-> RPlan(0)] @@ Opt("tok", {TRUE}, 25)

RFSet(S) == LET t == TLCEval(R(SUBSET S)) IN SetToSeq(t)
RFEnt(i) == [m |-> R(Methods), sz |-> R({"zero", "one", "tiny", "mid", "big"}), nm |-> R(BasicNm), flag |-> R(BOOLEAN), dfr |-> IF Often(50) THEN <<>> ELSE RFSet({"u", "c", "o"})]
              @@ Opt("ldfr", {TRUE}, 30) @@ Opt("zx", {TRUE}, 15) @@ Opt("xp", {"before", "after", "both", "mid0", "dup", "lonly", "cafter"}, 50) @@ Opt("up", UniHow, 30)
              @@ Opt("cm", {"ascii", "blank", "longraw", "utf8", "raw", "long", "medium", "odd", "bytes"}, 40) @@ Opt("uc", UniHow, 30) @@ Opt("ufirst", {TRUE}, 30)
RFEntD(i) == LET e == TLCEval(RFEnt(i)) IN
             IF e.m # "stored" /\ Often(35) THEN e @@ [dd |-> R({"sig", "nosig"})] @@ Opt("ddsizes", {TRUE}, 40) ELSE e
RArr(p) == Opt("arr", Arrs, p)
RFEnd(p) == [cmt |-> R({"", "blank", "short", "bin", "utf8", "odd", "bytes", "mid", "max", "sig"})] @@ Opt("prefix", {"stub", "decoy"}, p)
          @@ (IF Often(50) THEN [z64 |-> TRUE, dfr |-> RFSet({"nd", "nt", "cs", "co", "disk", "cdd"}), sector |-> R({0, 1, 8, 300})] ELSE <<>>)
RForeign(vs, p) == [fam |-> "foreign", ents |-> RSeq(0, 7, RFEntD), end |-> RFEnd(p) @@ RArr(p), views |-> vs, plan |-> RPlan(0)] @@ (IF Often(50) THEN [rsched |-> RSched(0)] ELSE <<>>)
RBad(i) == R({ [mnum |-> R(MNums), conly |-> R(BOOLEAN)], [lmnum |-> R(MNums)], [csig |-> R({"zero", "dd", "swap", "bit", "rnd"})], [lsig |-> R({"zero", "dd", "swap", "bit", "rnd"})],
               [mal |-> R(Mal), lmal |-> ""], [mal |-> "", lmal |-> R(Mal)], [enc |-> TRUE] })
RRefused(vs) == LET es == TLCEval(RSeq(1, 5, RFEntD)) k == TLCEval(R(1..Len(es))) IN
                [fam |-> "foreign", ents |-> [es EXCEPT ![k] = @ @@ RBad(0)], end |-> RFEnd(0), views |-> vs, plan |-> <<"read">>]
RHEnt(i) == LET e == TLCEval(RFEntD(i)) IN IF e.m \in {"lzma", "xz", "zstd"} THEN [e EXCEPT !.m = "deflate"] ELSE e
RHostile(n) == [fam |-> "hostile", ents |-> RSeq(1, 5, RHEnt), end |-> RFEnd(20) @@ RArr(20),
                muts |-> RSeq(1, 3, LAMBDA i : IF Often(70) THEN LET rec == TLCEval(R(DOMAIN Recs)) IN FieldMut(rec, R(Recs[rec]), R({"first", "last"}), R(Vals))
                                               ELSE [how |-> R({"flips", "cut", "dup", "del", "noise", "zeros"}), k |-> R({1, 2, 3, 12})])]
RAccess(on) == [fam |-> "access", on |-> on,
                acts |-> RSeq(8, 24, LAMBDA i : IF Often(35) THEN AOp("open", R(0..4), 0, "") ELSE IF Often(75) THEN AOp("read", 0, R(0..3), R({"one", "half", "all"})) ELSE IF Often(50) THEN AOp("move", R(0..4), 0, "") ELSE AOp("drop", 0, R(0..2), ""))]
               @@ (IF Often(50) THEN [rsched |-> RSched(0)] ELSE <<>>)
               @@ (IF Often(40) THEN [mode |-> R(Modes), ops |-> RSeq(4, 6, LAMBDA i : [k |-> R(Kinds)] @@ Opt("sz", {"big", "zero"}, 30)), cmt |-> RCmt(0)]
                   ELSE [ents |-> RSeq(4, 6, RFEntD), end |-> RFEnd(25) @@ RArr(50)])
(* the streaming reader refuses Stored entries with a descriptor, which only the first generation surely has not *)
RGens(first) == RSeq(1, 4, LAMBDA i : Gen(R(IF i = 1 THEN first ELSE {"mem", "seek"}), R(Modes), R(Kinds \cup {"mix"})))
(* Left out: what has no one meaning to preserve (bytes flagged as UTF-8 which are not, next to a Unicode field for *)
(* them; a Unicode comment for no comment).                                                                        *)
RCEnt(i) == LET e == TLCEval(RFEntD(i)) IN
            [ f \in DOMAIN e |-> IF f \in {"nm", "cm"} /\ e.flag /\ e[f] \in {"raw", "bytes", "longraw"} THEN "utf8" ELSE IF f = "uc" /\ "cm" \notin DOMAIN e THEN "" ELSE IF f = "uc" /\ e[f] = "zerocrc" THEN "badcrc" ELSE e[f] ]
RCopy(z) == IF Often(40) THEN [fam |-> "copy", gens |-> RGens({"mem", "seek"}), mode |-> R(Modes), ops |-> RSeq(1, 6, ROpPlain), cmt |-> "short"]
            ELSE [fam |-> "copy", gens |-> RGens({"mem", "seek", "stream"}), ents |-> RSeq(1, 5, RCEnt), end |-> RFEnd(0)]
RText(z) == R({"u", "mb", "raw", "alt", "altu"})
RLen(z) == R({20, 300, 20000, 32768, 65000, 65500} \cup (65490..65540))
RTight(z) == LET o == TLCEval([k |-> R(Kinds), m |-> "stored", sz |-> "tiny"] @@ (IF Often(60) THEN [nl |-> RLen(0), nk |-> RText(0)] ELSE [nm |-> R(Names \ {"long"})])
                              @@ (IF Often(60) THEN [cl |-> RLen(0), ck |-> RText(0)] ELSE [cm |-> R(Cmts \ {"long"})]) @@ (IF Often(40) THEN [xl |-> R({20, 300} \cup (65490..65540))] ELSE <<>>))
             IN Prog(R(Modes), <<SmallW, o, SmallW>>, "short", <<"mem", "raw">>)

RSize(z) == R({"0", "7", "100", "4096", "m-1", "m", "m+1", "m+2"})
RLim(z) == Lim(R(Modes), RSeq(2, 5, LAMBDA i : LET k == TLCEval(R(Kinds)) IN
                                               IF k \in {"P", "Q"} /\ Often(60) THEN [k |-> k, sz |-> R({"0", "7", "100"}), us |-> R({"7", "m-1", "m", "m+1", "e33", "e40", "max"})]
                                               ELSE IF Often(30) THEN [k |-> k, upto |-> R({"m-40", "m-1", "m", "m+1"})]
                                               ELSE IF Often(25) THEN [k |-> k, sz |-> RSize(0)] ELSE [k |-> k]), R({0, 3, 70}), FALSE)

Random == CASE IOEnv.ZV_PROP = "C01" -> Walks(Q(250, 6000), LAMBDA r : LongProg(<<"mem", "seek", "fs">>))
            [] IOEnv.ZV_PROP = "C02" -> Walks(Q(300, 6000), LAMBDA r : LongProg(<<"stream">>))
            [] IOEnv.ZV_PROP = "C03" -> Walks(Q(250, 6000), LAMBDA r : LongProg(<<"raw">>)) \cup Walks(Q(150, 3000), LAMBDA r : WildProg(<<"raw">>))
            [] IOEnv.ZV_PROP = "C04" -> Walks(Q(40, 1500), RLim)
            [] IOEnv.ZV_PROP = "C06" -> Walks(Q(1500, 60000), RHostile)
            [] IOEnv.ZV_PROP = "C07" -> Walks(Q(150, 3000), LAMBDA r : SchedOf([mode |-> R(Modes), ops |-> RSeq(2, 8, ROpPlain), cmt |-> RCmt(0)], RSched(0), RPlan(0)))
                                        \cup Walks(Q(250, 5000), LAMBDA r : SchedOf([ents |-> RSeq(0, 6, RFEntD), end |-> RFEnd(0)], RSched(0), RPlan(0)))
            [] IOEnv.ZV_PROP = "C08" -> Walks(Q(250, 6000), LAMBDA r : LongProg(<<"same", "raw">>) @@ [sched |-> RSched(0)])
            [] IOEnv.ZV_PROP = "C09" -> Walks(Q(400, 9000), LAMBDA r : WildProg(<<"mem", "raw", "stream">>))
            [] IOEnv.ZV_PROP = "C10" -> Walks(Q(300, 6000), LAMBDA r : RForeign(AllViews, 0)) \cup Walks(Q(100, 2000), LAMBDA r : LongProg(<<"mem", "stream", "raw">>))
            [] IOEnv.ZV_PROP = "C12" -> UNION { Walks(Q(150, 4000), LAMBDA r : RAccess(o)) : o \in {"mem", "seek", "clones", "fs"} }
            [] IOEnv.ZV_PROP = "C13" -> Walks(Q(400, 9000), RTight)
            [] IOEnv.ZV_PROP = "C15" -> Walks(Q(400, 9000), RCopy)
            [] IOEnv.ZV_PROP = "C16" -> Walks(Q(600, 9000), LAMBDA r : RRefused(AllViews))
            [] IOEnv.ZV_PROP = "C17" -> Walks(Q(600, 9000), LAMBDA r : RForeign(AllViews, 0)) \cup Walks(Q(200, 3000), LAMBDA r : RForeign(DirViews, 60))
            [] OTHER -> {}

Cases == Known \cup Random \cup CASE IOEnv.ZV_PROP = "C01" -> C01
           [] IOEnv.ZV_PROP = "C02" -> C02
           [] IOEnv.ZV_PROP = "C03" -> C03
           [] IOEnv.ZV_PROP = "C04" -> C04
           [] IOEnv.ZV_PROP = "C05" -> C05
           [] IOEnv.ZV_PROP = "C06" -> C06
           [] IOEnv.ZV_PROP = "C07" -> C07
           [] IOEnv.ZV_PROP = "C08" -> C08
           [] IOEnv.ZV_PROP = "C09" -> C09
           [] IOEnv.ZV_PROP = "C10" -> C10
           [] IOEnv.ZV_PROP = "C11" -> C11
           [] IOEnv.ZV_PROP = "C12" -> C12
           [] IOEnv.ZV_PROP = "C13" -> C13
           [] IOEnv.ZV_PROP = "C14" -> C14
           [] IOEnv.ZV_PROP = "C15" -> C15
           [] IOEnv.ZV_PROP = "C16" -> C16
           [] IOEnv.ZV_PROP = "C17" -> C17
           [] IOEnv.ZV_PROP = "C18" -> C18

ASSUME /\ LET s == SetToSeq(Cases) IN ndJsonSerialize(IOEnv.ZV_OUT, s) /\ PrintT("CASES " \o ToString(Len(s)))
=============================================================================
