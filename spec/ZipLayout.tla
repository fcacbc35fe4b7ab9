------------------------------ MODULE ZipLayout ------------------------------
(* The ZIP container as a structure: what records mean (decoding), and when a *)
(* sequence of records soundly represents a list of entries.                  *)
(*                                                                            *)
(* Everything here is a pure operator over records, generic in the number     *)
(* representation, so that the same predicates are                            *)
(*   - checked by TLC on a reference encoder with scaled-down limits          *)
(*     (ZipWriter, MCWriter.cfg), and                                         *)
(*   - evaluated on records parsed from bytes the real code emitted           *)
(*     (ZipTrace; 64-bit numbers as limbs, limits at their true values).      *)
(*                                                                            *)
(* A "truth" entry t is what the user asked for:                              *)
(*   name, cmt : texts [id, U (is UTF-8), ascii, alt, b (bytes stored in the  *)
(*               header), bl (their length), l]                               *)
(*   m, dt, ia, ea, crc, us, data, dd (streamed), xs, xl, cs, cdata, pre      *)
(* Ids identify byte strings: equal ids iff equal contents.                   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS
    Add(_, _), Le(_, _),     \* arithmetic on field values
    V(_),                    \* embedding of small naturals
    Max32, Max16,            \* the markers / maxima of 32- and 16-bit fields (as field values)
    MaxLen,                  \* greatest length of a name, comment, extra area (a natural)
    LFH, CDH, EOCD, Z64R, Z64L, DD16, DD24   \* fixed record sizes (naturals)

Lt(a, b) == Le(a, b) /\ a # b
Zero == V(0)
Bit(f, k) == (f \div (2 ^ k)) % 2 = 1

F(t, k, d) == IF k \in DOMAIN t THEN t[k] ELSE d
Checks(s) == { c[1] : c \in { d \in s : ~d[2] } }   \* names of the failed ones among <<name, holds>>

---------------------------------------------------------------------------
(* Decoding: deferred fields are taken from the ZIP64 field in the fixed     *)
(* order uncompressed, compressed, offset; only deferred ones are present.   *)
Take(v, z, k) == IF v = Max32 /\ k <= Len(z) THEN <<z[k], k + 1>> ELSE <<v, k>>

DecodeSizes(u, c, o, z) ==
    LET a == Take(u, z, 1)
        b == Take(c, z, a[2])
        d == Take(o, z, b[2])
    IN  [u |-> a[1], c |-> b[1], o |-> d[1]]

(* End records: a deferred classic field takes the ZIP64 value.               *)
DecodeEnd(end, z64) ==
    [ n  |-> IF z64.has /\ end.nt = Max16 THEN z64.rnt ELSE end.nt,
      nd |-> IF z64.has /\ end.nd = Max16 THEN z64.rnd ELSE end.nd,
      cs |-> IF z64.has /\ end.cs = Max32 THEN z64.rcs ELSE end.cs,
      co |-> IF z64.has /\ end.co = Max32 THEN z64.rco ELSE end.co ]

(* Text: the UTF-8 flag wins; else a Unicode extra field whose CRC matches    *)
(* the header bytes; else plain ASCII is text; else raw bytes.                *)
DecodeText(flag, basic, ascii, uni) ==
    IF flag THEN [id |-> basic, U |-> TRUE, alt |-> "none"]
    ELSE IF uni.n > 0 /\ uni.ver = 1 /\ uni.crcok /\ uni.utf8
         THEN [id |-> uni.id, U |-> TRUE, alt |-> basic]
         ELSE [id |-> basic, U |-> ascii, alt |-> "none"]

(* The text recovered from the headers is the text that was written.          *)
TextKept(t, d) ==
    /\ d.id = t.id
    /\ t.U => d.U
    /\ (~t.U /\ ~t.ascii) => ~d.U
    /\ t.alt # "none" => d.alt = t.alt

---------------------------------------------------------------------------
(* Soundness of the end records.  raw is the archive as records.             *)
EndFails(raw, n, cl, cid) ==
    IF ~raw.end.ok THEN {"end record missing where the comment length puts it"}
    ELSE LET e == DecodeEnd(raw.end, raw.z64)
             z == raw.z64
             afterCd == Add(e.co, e.cs)
         IN  Checks({
            <<"end: comment length field", raw.end.cl = cl>>,
            <<"end: comment bytes", raw.end.cid = cid>>,
            <<"end: disk numbers", raw.end.disk = 0 /\ raw.end.cdd = 0>>,
            <<"end: entry count", e.n = V(n)>>,
            <<"end: entry count on this disk", e.nd = V(n)>>,
            <<"end: all directory records present", raw.full /\ raw.count = V(n)>>,
            <<"end: directory size", Add(e.co, e.cs) = raw.cdend>>,
            <<"end: nothing between directory and end records",
                IF z.has THEN z.rok /\ z.lrel = afterCd ELSE raw.end.off = afterCd>>,
            <<"end: nothing after the comment", Add(raw.end.off, V(EOCD + cl)) = raw.total>>
         } \cup IF ~z.has THEN {} ELSE {
            <<"zip64: record found through the locator", z.rok>>,
            <<"zip64: record size field", Add(Add(z.lrel, V(12)), z.rsz) = z.loff>>,
            <<"zip64: locator directly before the end record", Add(z.loff, V(Z64L)) = raw.end.off>>,
            <<"zip64: disk numbers", z.ldisk = Zero /\ z.ltot = V(1) /\ z.rdisk = Zero /\ z.rcdd = Zero>>,
            <<"zip64: entry count", z.rnt = V(n) /\ z.rnd = V(n)>>,
            <<"zip64: directory size", z.rcs = e.cs>>,
            <<"zip64: directory offset", z.rco = e.co>>
         })

(* A value that does not fit its classic field must be found via ZIP64; a     *)
(* truncated value is never a decoding of the truth, so EndFails and CdFails  *)
(* subsume "no truncation".                                                   *)

CdFails(c, t, cs) ==
    LET d == DecodeSizes(c.u32, c.c32, c.o32, c.x.z)
        nm == DecodeText(Bit(c.fl, 11), c.nb, c.nascii, c.x.up)
        cm == DecodeText(Bit(c.fl, 11), c.cb, c.cascii, c.x.uc)
    IN  Checks({
        <<"cd: name bytes", c.nb = t.name.b /\ c.nl = t.name.bl>>,
        <<"cd: comment bytes", c.cb = t.cmt.b /\ c.cl = t.cmt.bl>>,
        <<"cd: name text", TextKept(t.name, nm)>>,
        <<"cd: comment text", TextKept(t.cmt, cm)>>,
        <<"cd: method", c.m = t.m>>,
        <<"cd: date", c.dt = t.dt>>,
        <<"cd: crc", c.crc = t.crc>>,
        <<"cd: uncompressed size", d.u = t.us>>,
        <<"cd: compressed size", d.c = cs>>,
        <<"cd: header offset", F(t, "at", d.o) = d.o>>,
        <<"cd: attributes", c.ia = t.ia /\ c.ea = t.ea>>,
        <<"cd: disk", c.dk = 0>>,
        <<"cd: descriptor flag", Bit(c.fl, 3) = t.dd>>,
        <<"cd: not encrypted", ~Bit(c.fl, 0)>>,
        <<"cd: extra area parses exactly", c.x.ok>>,
        <<"cd: at most one ZIP64 field, fully used",
            \/ c.x.zn = 0
            \/ c.x.zn = 1 /\ c.x.zl = 8 * Cardinality({f \in {1, 2, 3} :
                   \/ f = 1 /\ c.u32 = Max32
                   \/ f = 2 /\ c.c32 = Max32
                   \/ f = 3 /\ c.o32 = Max32})>>,
        <<"cd: other extra fields", c.x.xs = t.xs>>,
        <<"cd: one Unicode field per text", c.x.up.n <= 1 /\ c.x.uc.n <= 1>>
      })

(* l: local record of an entry whose directory record is c.                   *)
LocFails(l, c, t) ==
    IF ~l.ok THEN {"local header missing where the directory points"}
    ELSE LET d == DecodeSizes(l.u32, l.c32, Zero, l.x.z)
         IN Checks({
        <<"local: name bytes", l.nb = c.nb /\ l.nl = c.nl>>,
        <<"local: method", l.m = c.m>>,
        <<"local: date", l.dt = c.dt>>,
        <<"local: flags", l.fl = c.fl>>,
        <<"local: extra area parses exactly", l.x.ok>>,
        <<"local: other extra fields", l.x.all = c.x.all>>,
        <<"local: at most one ZIP64 field, holding both sizes", l.x.zn = 0 \/ (l.x.zn = 1 /\ l.x.zl >= 16)>>,
        <<"local: crc", t.dd \/ l.crc = c.crc>>,
        <<"local: sizes", t.dd \/ (d.u = c.eu /\ d.c = c.ec)>>,
        <<"local: data decodes to what was written", t.real => l.pid = t.data>>,
        <<"local: stored bytes are those given", t.cdata = "any" \/ l.did = t.cdata>>,
        <<"local: crc describes the data", t.real => l.pcrc = c.crc>>,
        <<"local: size describes the data", t.real => l.plen = c.eu>>
      })

(* Data descriptor variants (with signature): 16 bytes with 32-bit sizes, or  *)
(* 24 bytes with 64-bit sizes.  DescriptorMarkers is what the current writer  *)
(* emits for ZIP64 streamed entries: 32-bit markers instead of sizes (known   *)
(* finding, see KNOWN_FINDINGS).                                              *)
DescriptorGood(v, c) == v.sig /\ v.crc = c.crc /\ v.c = c.ec /\ v.u = c.eu
DescriptorMarkers(v, l, c) == v.sig /\ v.n = DD16 /\ v.crc = c.crc /\ v.c = Max32 /\ v.u = Max32 /\ l.x.zn = 1
DescriptorLens(l, c) ==
    { l.dd[i].n : i \in { j \in 1..Len(l.dd) : DescriptorGood(l.dd[j], c) \/ DescriptorMarkers(l.dd[j], l, c) } }

(* Ends an entry may have: after its data, or after a good descriptor.        *)
EntryEnds(l, c, t) ==
    IF ~t.dd THEN {l.dend} ELSE { Add(l.dend, V(k)) : k \in DescriptorLens(l, c) }

(* Positions: records tile the output.  After a failed or abandoned entry     *)
(* there may be dead bytes between entries, but entries never overlap.        *)
TileFails(raw, truths, dead) ==
    LET n == Len(truths)
        e == DecodeEnd(raw.end, raw.z64)
        Start(i) == IF i <= n THEN raw.cd[i].eo ELSE e.co
    IN  Checks(
        { <<"layout: first entry at the start", n = 0 \/ dead \/ Start(1) = Zero>>,
          <<"layout: empty archive starts with its directory", n > 0 \/ dead \/ e.co = Zero>>,
          <<"layout: directory records contiguous",
             /\ n > 0 => raw.cd[1].off = e.co
             /\ \A i \in 1..n :
                  Add(raw.cd[i].off, V(CDH + raw.cd[i].nl + raw.cd[i].xl + raw.cd[i].cl))
                     = IF i < n THEN raw.cd[i + 1].off ELSE raw.cdend>> }
        \cup
        { <<"layout: descriptor of a streamed entry",
             \A i \in 1..n : raw.loc[i].ok => EntryEnds(raw.loc[i], raw.cd[i], truths[i]) # {} >>,
          <<"layout: entries follow each other",
             \A i \in 1..n : raw.loc[i].ok =>
                IF dead THEN \E x \in EntryEnds(raw.loc[i], raw.cd[i], truths[i]) : Le(x, Start(i + 1))
                ELSE Start(i + 1) \in EntryEnds(raw.loc[i], raw.cd[i], truths[i]) >>,
          <<"layout: decoded positions agree",
             \A i \in 1..n : LET d == DecodeSizes(raw.cd[i].u32, raw.cd[i].c32, raw.cd[i].o32, raw.cd[i].x.z)
                             IN d.u = raw.cd[i].eu /\ d.c = raw.cd[i].ec /\ d.o = raw.cd[i].eo>> })

RawFails(raw, truths, dead, cl, cid) ==
    LET ef == EndFails(raw, Len(truths), cl, cid)
    IN  IF ef # {} THEN ef
        ELSE LET n == Len(truths)
                 cf == UNION { CdFails(raw.cd[i], truths[i], raw.cd[i].ec) : i \in 1..n }
                 lf == UNION { LocFails(raw.loc[i], raw.cd[i], truths[i]) : i \in 1..n }
             IN  IF cf \cup lf # {} THEN cf \cup lf ELSE TileFails(raw, truths, dead)

(* What the archive means to a reader: the list of entries.                   *)
Meaning(raw) ==
    [ i \in 1..Len(raw.cd) |->
        LET c == raw.cd[i]
            d == DecodeSizes(c.u32, c.c32, c.o32, c.x.z)
        IN [ name |-> DecodeText(Bit(c.fl, 11), c.nb, c.nascii, c.x.up).id,
             m |-> c.m, crc |-> c.crc, us |-> d.u, cs |-> d.c, at |-> d.o, data |-> raw.loc[i].pid ] ]

(* ZIP64 structures present at all?                                           *)
UsesZip64(raw) == raw.z64.has \/ \E i \in 1..Len(raw.cd) : raw.cd[i].x.zn > 0 \/ (raw.loc[i].ok /\ raw.loc[i].x.zn > 0)
KnownDescriptor(raw, truths) ==
    \E i \in 1..Len(truths) : raw.loc[i].ok /\ truths[i].dd /\
        (\E j \in 1..Len(raw.loc[i].dd) : DescriptorMarkers(raw.loc[i].dd[j], raw.loc[i], raw.cd[i])) /\
        (\A j \in 1..Len(raw.loc[i].dd) : ~DescriptorGood(raw.loc[i].dd[j], raw.cd[i]))
=============================================================================
