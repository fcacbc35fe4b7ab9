------------------------------- MODULE MCCopy --------------------------------
(* Design check of names, comments and extra fields (C10, C15, C17): how this *)
(* crate encodes them into a directory record, how it decodes them, and what  *)
(* becomes of an entry that is read and written again and again, in any ZIP64 *)
(* mode, whole or streamed.  The decoding the specification demands           *)
(* (ZipLayout) is checked against the algorithm the reader uses.              *)
(* Byte strings are symbols; the CRC-32 of a string is the string itself.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxGen, MaxExtra, Vals, Offs

PlusN(a, b) == a + b
LeN(a, b) == a <= b
IdN(n) == n
Max32 == 9
INSTANCE ZipLayout WITH Add <- PlusN, Le <- LeN, V <- IdN, Max32 <- Max32, Max16 <- 9, MaxLen <- 60,
    LFH <- 30, CDH <- 46, EOCD <- 22, Z64R <- 56, Z64L <- 20, DD16 <- 16, DD24 <- 24

(* symbols: empty, plain ASCII, other UTF-8, not UTF-8                        *)
Strings == {"", "plain", "utf8", "bytes"}
IsUtf8(s) == s # "bytes"
IsAscii(s) == s \in {"", "plain"}
NONE == "none"

(* texts as a user can make them, or a reader returns them                    *)
Texts == [b : {"", "plain", "utf8"}, U : {TRUE}, alt : {NONE}]
         \cup [b : {"plain", "utf8"}, U : {TRUE}, alt : {"plain", "bytes"}]
         \cup [b : {"plain", "utf8", "bytes"}, U : {FALSE}, alt : {NONE}]

(* extra fields: [k, a, b]                                                    *)
Other == { [k |-> "other", a |-> x, b |-> ""] : x \in {"A", "B"} }
Stale == { [k |-> "zip64", a |-> "stale", b |-> ""], [k |-> "upath", a |-> "old", b |-> "utf8"], [k |-> "ucom", a |-> "old", b |-> "utf8"] }
ExtraLists == UNION { [1..n -> Other \cup Stale] : n \in 0..MaxExtra }
OneOfAKind(xs) == \A k \in {"zip64", "upath", "ucom"} : Cardinality({ j \in 1..Len(xs) : xs[j].k = k }) <= 1

VARIABLES name, cmt, xs,      \* the entry in hand
          name0, cmt0, xs0,   \* as it was in the beginning
          us, cs, ho,         \* its size, compressed size and where it lies (9: the marker, 10 above it)
          gen, rec            \* the record it was last written as
vars == <<name, cmt, xs, name0, cmt0, xs0, us, cs, ho, gen, rec>>

Init ==
    /\ name0 \in Texts /\ cmt0 \in Texts /\ xs0 \in { x \in ExtraLists : OneOfAKind(x) }
    /\ name = name0 /\ cmt = cmt0 /\ xs = xs0 /\ us = 0 /\ cs = 0 /\ ho = 0 /\ gen = 0 /\ rec = <<>>

---------------------------------------------------------------------------
(* Encoding.                                                                 *)
Basic(t) == IF t.alt # NONE THEN t.alt ELSE t.b
Plain(t) == t.U /\ t.alt = NONE
Without(x, k) == SelectSeq(x, LAMBDA f : f.k # k)
Put(x, k, a, b) ==
    LET at == { j \in 1..Len(x) : x[j].k = k } IN
    IF at = {} THEN Append(x, [k |-> k, a |-> a, b |-> b])
    ELSE [x EXCEPT ![CHOOSE j \in at : \A m \in at : j <= m] = [k |-> k, a |-> a, b |-> b]]
WithUnicode(x, n, c) ==
    IF Plain(n) /\ Plain(c) THEN x
    ELSE LET y == IF n.U /\ n.b # "" THEN Put(x, "upath", Basic(n), n.b) ELSE x
         IN  IF c.U /\ c.b # "" THEN Put(y, "ucom", Basic(c), c.b) ELSE y

(* Whole: the ZIP64 field holds the sizes if one needs it, and the offset if  *)
(* it does; streamed: all three, unless ZIP64 is forbidden.                   *)
Fit(v) == IF v > Max32 THEN Max32 ELSE v
Refused(mode, stream, u, c, o) == mode = "no64" /\ (IF stream THEN u > Max32 \/ c > Max32 \/ o > Max32 ELSE u >= Max32 \/ c >= Max32 \/ o >= Max32)
Record(mode, stream, u, c, o) ==
    LET clean == Without(xs, "zip64")
        big == u >= Max32 \/ c >= Max32
        far == o >= Max32
        z64 == (stream /\ mode # "no64")
        z == IF z64 THEN <<u, c, o>>
             ELSE IF stream THEN <<>>
             ELSE (IF big THEN <<u, c>> ELSE <<>>) \o (IF far THEN <<o>> ELSE <<>>)
        withz == IF z = <<>> THEN clean ELSE Append(clean, [k |-> "zip64", a |-> "new", b |-> ""])
        area == IF stream \/ big THEN WithUnicode(withz, name, cmt)
                ELSE IF far THEN Append(WithUnicode(clean, name, cmt), [k |-> "zip64", a |-> "new", b |-> ""])
                ELSE WithUnicode(clean, name, cmt)
    IN  [ flag |-> Plain(name) /\ Plain(cmt), nb |-> Basic(name), cb |-> Basic(cmt), area |-> area, z |-> z,
          u32 |-> IF z64 \/ (~stream /\ big) THEN Max32 ELSE u, c32 |-> IF z64 \/ (~stream /\ big) THEN Max32 ELSE c,
          o32 |-> IF z64 \/ (~stream /\ far) THEN Max32 ELSE o, tu |-> u, tc |-> c, to |-> o ]

(* Decoding, as the reader does it.                                          *)
Field(r, k) == LET f == SelectSeq(r.area, LAMBDA x : x.k = k) IN IF f = <<>> THEN <<>> ELSE <<f[1]>>
ReadText(r, basic, k) ==
    IF r.flag THEN [b |-> basic, U |-> IsUtf8(basic), alt |-> NONE]
    ELSE LET f == Field(r, k) IN
         IF f # <<>> /\ f[1].a = basic /\ IsUtf8(f[1].b) THEN [b |-> f[1].b, U |-> TRUE, alt |-> basic]
         ELSE [b |-> basic, U |-> IsAscii(basic), alt |-> NONE]
(* the ZIP64 field: sizes only where the header has the marker; whatever is   *)
(* left is the offset, used only where the header has the marker              *)
ReadSizes(r) ==
    LET k1 == IF r.u32 = Max32 /\ Len(r.z) >= 1 THEN 2 ELSE 1
        k2 == IF r.c32 = Max32 /\ Len(r.z) >= k1 THEN k1 + 1 ELSE k1
        off == IF Len(r.z) >= k2 THEN <<r.z[k2]>> ELSE <<>>
    IN  [ u |-> IF k1 = 2 THEN r.z[1] ELSE r.u32, c |-> IF k2 > k1 THEN r.z[k1] ELSE r.c32,
          o |-> IF r.o32 = Max32 /\ off # <<>> THEN off[1] ELSE r.o32 ]

Rewrite == \E mode \in {"auto", "no64"}, stream \in BOOLEAN, u \in Vals, c \in Vals, o \in Offs :
    /\ gen < MaxGen /\ ~Refused(mode, stream, u, c, o)
    /\ LET r == Record(mode, stream, u, c, o)
           s == ReadSizes(r) IN
       /\ rec' = <<r>> /\ gen' = gen + 1
       /\ name' = ReadText(r, r.nb, "upath") /\ cmt' = ReadText(r, r.cb, "ucom")
       /\ xs' = r.area /\ us' = s.u /\ cs' = s.c /\ ho' = s.o
    /\ UNCHANGED <<name0, cmt0, xs0>>

Next == Rewrite
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Kept(t, d) ==
    /\ d.b = t.b
    /\ t.U => d.U
    /\ (~t.U /\ ~IsAscii(t.b)) => ~d.U
    /\ IF t.alt # NONE THEN d.alt = t.alt ELSE d.alt \in {NONE, t.b}
TextsKept == Kept(name0, name) /\ Kept(cmt0, cmt)
NeverInvalid == (name.U => IsUtf8(name.b)) /\ (cmt.U => IsUtf8(cmt.b))
OthersKept == SelectSeq(xs, LAMBDA f : f.k = "other") = SelectSeq(xs0, LAMBDA f : f.k = "other")
OneEach == OneOfAKind(xs)
NothingStale == rec # <<>> => \A j \in 1..Len(xs) : xs[j].k = "zip64" => xs[j].a = "new"
SizesTrue == rec # <<>> => us = rec[1].tu /\ cs = rec[1].tc /\ ho = rec[1].to
(* the reader's algorithm against the decoding the format defines             *)
Uni(r, k, basic) == LET f == Field(r, k) IN
    IF f = <<>> THEN [n |-> 0, ver |-> 0, crcok |-> FALSE, utf8 |-> FALSE, id |-> NONE]
    ELSE [n |-> 1, ver |-> 1, crcok |-> f[1].a = basic, utf8 |-> IsUtf8(f[1].b), id |-> f[1].b]
AsSpecified == rec # <<>> =>
    LET r == rec[1]
        d == DecodeSizes(r.u32, r.c32, r.o32, r.z)
        n == DecodeText(r.flag, r.nb, IsAscii(r.nb), Uni(r, "upath", r.nb))
        c == DecodeText(r.flag, r.cb, IsAscii(r.cb), Uni(r, "ucom", r.cb)) IN
    /\ d.u = us /\ d.c = cs /\ d.o = ho
    /\ n.id = name.b /\ n.U = name.U /\ n.alt = name.alt
    /\ c.id = cmt.b /\ c.U = cmt.U /\ c.alt = cmt.alt
=============================================================================
