------------------------------ MODULE MCWriter -------------------------------
(* Design check of the writer: this crate's way of encoding entries, as an    *)
(* algorithm over records, composed with the abstract writer of ZipWriter.    *)
(* TLC explores every program of up to MaxOps calls over a small alphabet of  *)
(* entries with the limits scaled down (Max32 = 60, Max16 = 2, MaxLen = 20;   *)
(* record sizes are the true ones), so that sizes, offsets, directory size    *)
(* and entry count fall below, on and above their limits, with failed,        *)
(* refused and abandoned entries in between.                                  *)
(* Invariants: every call's result is one the abstract writer allows, and     *)
(* every finished archive is structurally sound, means exactly the listed     *)
(* entries, and obeys its ZIP64 mode.                                         *)
EXTENDS ZipWriter, TLC

CONSTANTS MaxOps, Alphabet

PlusN(a, b) == a + b
LeN(a, b) == a <= b
IdN(n) == n

VARIABLES lay,      \* one [cd, loc, at] per listed entry, as encoded
          is64,     \* the writer has decided to emit ZIP64 end records
          nops, last, raw, pend
mvars == <<wvars, lay, is64, nops, last, raw, pend>>

---------------------------------------------------------------------------
Txt(id, n) == [id |-> id, U |-> TRUE, ascii |-> TRUE, alt |-> "none", b |-> id, bl |-> n, l |-> n]
Legacy(id, n) == [id |-> id, U |-> FALSE, ascii |-> FALSE, alt |-> "none", b |-> id, bl |-> n, l |-> n]
Both(id, n, a, an) == [id |-> id, U |-> TRUE, ascii |-> FALSE, alt |-> a, b |-> a, bl |-> an, l |-> n]

Ent(nm, cm, us, cs, dd) ==
    [name |-> nm, cmt |-> cm, m |-> 8, dt |-> "d", ia |-> "i", ea |-> "e", crc |-> "c", us |-> us, data |-> "D",
     dd |-> dd, real |-> TRUE, xs |-> <<>>, xl |-> 0, cs |-> cs, cdata |-> "any"]

Nm == Txt("n", 0)
None == Txt("", 0)
(* us, cs around the limit; data lengths that put the next offset, or the     *)
(* directory size, around the limit; comments around it; texts of all kinds   *)
Small ==
    { Ent(Nm, None, us, us, FALSE) : us \in {0, 29, 30, 31} }
    \cup { Ent(Nm, None, us, cs, FALSE) : us \in {59, 60, 61}, cs \in {29, 60} }
    \cup { Ent(Nm, Txt("k", k), 0, 0, FALSE) : k \in {13, 14, 15, 20, 21} }
    \cup { Ent(Txt("m", k), None, 1, 1, FALSE) : k \in {20, 21} }
    \cup { Ent(nm, cm, 3, 2, FALSE) : nm \in {Legacy("r", 2), Both("u", 3, "a", 2)}, cm \in {None, Txt("k", 3), Legacy("s", 1)} }
Streams == { [e EXCEPT !.dd = TRUE] : e \in Small }
Tiny == { Ent(Nm, None, 0, 0, FALSE), Ent(Nm, None, 30, 30, FALSE), Ent(Nm, None, 61, 29, FALSE), Ent(Both("u", 3, "a", 2), Txt("k", 14), 3, 2, FALSE),
          Ent(Txt("m", 21), None, 1, 1, FALSE), Ent(Nm, Txt("k", 21), 0, 0, FALSE) }
Ents == IF Alphabet = "full" THEN Small \cup Streams ELSE Tiny \cup { [e EXCEPT !.dd = TRUE] : e \in Tiny }

---------------------------------------------------------------------------
(* The encoding.                                                             *)
Uni(x) == [n |-> 1, ver |-> 1, crcok |-> TRUE, utf8 |-> TRUE, id |-> x.id]
NoUni == [n |-> 0, ver |-> 0, crcok |-> FALSE, utf8 |-> FALSE, id |-> "none"]
HasUni(t, x) == NeedsUnicode(t) /\ x.U /\ x.l > 0
Area(t, z) ==
    [ ok |-> TRUE, xs |-> t.xs, zn |-> IF z = <<>> THEN 0 ELSE 1, zl |-> 8 * Len(z), z |-> z,
      all |-> t.xs \o (IF HasUni(t, t.name) THEN <<"up">> ELSE <<>>) \o (IF HasUni(t, t.cmt) THEN <<"uc">> ELSE <<>>),
      up |-> IF HasUni(t, t.name) THEN Uni(t.name) ELSE NoUni,
      uc |-> IF HasUni(t, t.cmt) THEN Uni(t.cmt) ELSE NoUni ]
AreaLen(t, z) == t.xl + (IF HasUni(t, t.name) THEN 9 + t.name.l ELSE 0) + (IF HasUni(t, t.cmt) THEN 9 + t.cmt.l ELSE 0)
                 + IF z = <<>> THEN 0 ELSE 4 + 8 * Len(z)
Flags(t) == (IF t.dd THEN 8 ELSE 0) + IF NeedsUnicode(t) THEN 0 ELSE 2048

Local(t, at, u, c, crc, z, dds) ==
    LET dof == at + LFH + t.name.bl + AreaLen(t, z) IN
    [ ok |-> TRUE, off |-> at, fl |-> Flags(t), m |-> t.m, dt |-> t.dt, crc |-> crc, c32 |-> c, u32 |-> u,
      nl |-> t.name.bl, nb |-> t.name.b, nascii |-> t.name.ascii /\ t.name.alt = "none", x |-> Area(t, z), xl |-> AreaLen(t, z),
      dend |-> dof + t.cs, did |-> "x", pid |-> t.data, pcrc |-> t.crc, plen |-> t.us, dd |-> dds ]
Central(t, at, u, c, o, z) ==
    LET d == DecodeSizes(u, c, o, z) IN
    [ off |-> 0, fl |-> Flags(t), m |-> t.m, dt |-> t.dt, crc |-> t.crc, c32 |-> c, u32 |-> u, o32 |-> o,
      nl |-> t.name.bl, nb |-> t.name.b, nascii |-> t.name.ascii /\ t.name.alt = "none",
      cl |-> t.cmt.bl, cb |-> t.cmt.b, cascii |-> t.cmt.ascii /\ t.cmt.alt = "none",
      x |-> Area(t, z), xl |-> AreaLen(t, z), dk |-> 0, ia |-> t.ia, ea |-> t.ea, eu |-> d.u, ec |-> d.c, eo |-> d.o ]

(* Whole entries: ZIP64 only when a size or the offset asks for it.           *)
WholeEnc(t, at) ==
    LET big == t.us >= Max32 \/ t.cs >= Max32
        ob == at >= Max32
        z == IF big THEN <<t.us, t.cs>> \o (IF ob THEN <<at>> ELSE <<>>) ELSE <<>>
        cz == IF big THEN z ELSE IF ob THEN <<at>> ELSE <<>>
        u == IF big THEN Max32 ELSE t.us
        c == IF big THEN Max32 ELSE t.cs
        o == IF ob THEN Max32 ELSE at
    IN  [ need |-> big \/ ob, cd |-> Central(t, at, u, c, o, cz), loc |-> Local(t, at, u, c, t.crc, z, <<>>),
          big |-> AreaLen(t, z) > MaxLen \/ AreaLen(t, cz) > MaxLen ]
(* Streamed entries: ZIP64 always, unless forbidden; sizes after the data.    *)
StreamEnc(t, at) ==
    IF mode = "no64"
    THEN [ cd |-> Central(t, at, t.us, t.cs, at, <<>>),
           loc |-> Local(t, at, 0, 0, "0", <<>>, <<[n |-> DD16, sig |-> TRUE, crc |-> t.crc, c |-> t.cs, u |-> t.us]>>) ]
    ELSE [ cd |-> Central(t, at, Max32, Max32, Max32, <<t.us, t.cs, at>>),
           loc |-> Local(t, at, Max32, Max32, "0", <<0, 0>>, <<[n |-> DD16, sig |-> TRUE, crc |-> t.crc, c |-> Max32, u |-> Max32]>>) ]
HeadLen(t, z) == LFH + t.name.bl + AreaLen(t, z)

---------------------------------------------------------------------------
MCInit == WInit /\ lay = <<>> /\ is64 = FALSE /\ nops = 0 /\ last = {} /\ raw = <<>> /\ pend = <<>>

Start == \E m \in Modes :
    /\ mode = "none" /\ New(m) /\ is64' = (m = "force64")
    /\ UNCHANGED <<lay, nops, last, raw, pend>>

Commit(e) == lay' = Append(lay, e)
Reject(f) == last' = f

DoWhole == \E t \in { e \in Ents : ~e.dd } :
    LET en == WholeEnc(t, pos)
        tooMany == Len(listed) + 1 > Max16
        res == CASE mode = "no64" /\ en.need -> "Zip64Needed"
                 [] en.big -> "ExtraFieldTooLarge"
                 [] t.name.bl > MaxLen -> "FileNameTooLarge"
                 [] t.cmt.bl > MaxLen -> "CommentTooLarge"
                 [] mode = "no64" /\ tooMany -> "Zip64Needed"
                 [] OTHER -> "ok"
        written == res = "ok" \/ (mode = "no64" /\ tooMany /\ ~en.need /\ ~en.big /\ t.name.bl <= MaxLen /\ t.cmt.bl <= MaxLen)
        p2 == IF written THEN en.loc.dend ELSE pos
        f == WholeFails(t, res, p2, 0)
    IN  /\ mode # "none" /\ fin = "no" /\ open = <<>> /\ nops < MaxOps
        /\ nops' = nops + 1 /\ raw' = raw /\ pend' = pend
        /\ IF f # {} THEN last' = f /\ UNCHANGED <<wvars, lay, is64>>
           ELSE /\ Whole(t, res, p2, 0) /\ last' = {}
                /\ lay' = IF res = "ok" THEN Append(lay, [cd |-> en.cd, loc |-> en.loc]) ELSE lay
                /\ is64' = (is64 \/ (mode # "no64" /\ (en.need \/ (res = "ok" /\ tooMany))))

(* The sink fails, or the future is dropped, after d bytes of the entry.      *)
DoWholeFault == \E t \in { e \in Ents : ~e.dd }, d \in {0, 1, 30}, r \in {"Io:StorageFull", "cancelled"} :
    LET en == WholeEnc(t, pos) IN
    /\ mode # "none" /\ fin = "no" /\ open = <<>> /\ nops < MaxOps
    /\ ~(mode = "no64" /\ en.need) /\ pos + d < en.loc.dend
    /\ Whole(t, r, pos + d, IF r = "cancelled" THEN 0 ELSE 1)
    /\ is64' = (is64 \/ (mode # "no64" /\ en.need))
    /\ nops' = nops + 1 /\ UNCHANGED <<lay, last, raw, pend>>

DoOpen == \E t \in { e \in Ents : e.dd } :
    LET z == IF mode = "no64" THEN <<>> ELSE <<0, 0>>
        res == CASE AreaLen(t, z) > MaxLen -> "ExtraFieldTooLarge"
                 [] t.name.bl > MaxLen -> "FileNameTooLarge"
                 [] OTHER -> "ok"
        p2 == IF res = "ok" THEN pos + HeadLen(t, z) ELSE pos
        f == OpenFails(t, res, p2, 0)
    IN  /\ mode # "none" /\ fin = "no" /\ open = <<>> /\ nops < MaxOps
        /\ nops' = nops + 1 /\ raw' = raw /\ lay' = lay
        /\ IF f # {} THEN last' = f /\ UNCHANGED <<wvars, is64, pend>>
           ELSE /\ Open(t, FALSE, res, p2, 0) /\ last' = {}
                /\ pend' = IF res = "ok" THEN <<t, pos>> ELSE <<>>
                /\ is64' = (is64 \/ mode # "no64")

DoFeed ==
    /\ open # <<>> /\ open[1].n = 0 /\ pend[1].us > 0
    /\ Feed(<<pend[1].us>>, <<pend[1].us>>, "ok", TRUE, 0)
    /\ UNCHANGED <<lay, is64, nops, last, raw, pend>>

DoCloseE ==
    /\ open # <<>> /\ (open[1].n = pend[1].us)
    /\ LET t == pend[1]
           at == pend[2]
           en == StreamEnc(t, at)
           tooMany == Len(listed) + 1 > Max16
           res == CASE mode = "no64" /\ (t.us > Max32 \/ t.cs > Max32 \/ at > Max32) -> "Zip64Needed"
                    [] mode # "no64" /\ AreaLen(t, <<0, 0, 0>>) > MaxLen -> "ExtraFieldTooLarge"
                    [] t.cmt.bl > MaxLen -> "CommentTooLarge"
                    [] mode = "no64" /\ tooMany -> "Zip64Needed"
                    [] OTHER -> "ok"
           p2 == en.loc.dend + IF res = "ok" THEN DD16 ELSE 0
           f == CloseEFails(t, res, p2, 0)
       IN  /\ IF f # {} THEN last' = f /\ UNCHANGED <<wvars, lay, is64, pend>>
              ELSE /\ CloseE(t, res, p2, 0) /\ last' = {} /\ pend' = <<>>
                   /\ lay' = IF res = "ok" THEN Append(lay, [cd |-> en.cd, loc |-> en.loc]) ELSE lay
                   /\ is64' = (is64 \/ (mode # "no64" /\ tooMany))
           /\ UNCHANGED <<nops, raw>>

DoDrop ==
    /\ open # <<>>
    /\ \E d \in {0, 5} : Drop(pos + d)
    /\ pend' = <<>> /\ UNCHANGED <<lay, is64, nops, last, raw>>

(* The directory and the end records.                                        *)
RECURSIVE CdOff(_)
CdOff(i) == IF i = 1 THEN pos ELSE CdOff(i - 1) + CDH + lay[i-1].cd.nl + lay[i-1].cd.xl + lay[i-1].cd.cl
Assemble(cl) ==
    LET n == Len(lay)
        cdend == CdOff(n + 1)
        cs == cdend - pos
        z == is64 \/ (mode # "no64" /\ (pos > Max32 \/ cs > Max32))
        eoff == cdend + IF z THEN Z64R + Z64L ELSE 0
        Clip(v, m) == IF v > m THEN m ELSE v
    IN  [ total |-> eoff + EOCD + cl, full |-> TRUE, count |-> n, cdend |-> cdend,
          cd |-> [ i \in 1..n |-> [lay[i].cd EXCEPT !.off = CdOff(i)] ], loc |-> [ i \in 1..n |-> lay[i].loc ],
          end |-> [ ok |-> TRUE, off |-> eoff, disk |-> 0, cdd |-> 0, nd |-> Clip(n, Max16), nt |-> Clip(n, Max16),
                    cs |-> Clip(cs, Max32), co |-> Clip(pos, Max32), cl |-> cl, cid |-> "cid" ],
          z64 |-> IF ~z THEN [has |-> FALSE]
                  ELSE [ has |-> TRUE, loff |-> cdend + Z64R, ldisk |-> 0, lrel |-> cdend, ltot |-> 1, rok |-> TRUE, rsz |-> Z64R - 12,
                         rdisk |-> 0, rcdd |-> 0, rnd |-> n, rnt |-> n, rcs |-> cs, rco |-> pos ] ]
DoFinish == \E cl \in {0, 20, 21} :
    LET r == Assemble(cl)
        cs == r.cdend - pos
        res == CASE mode = "no64" /\ (pos > Max32 \/ cs > Max32) -> "Zip64Needed"
                 [] cl > MaxLen -> "CommentTooLarge"
                 [] OTHER -> "ok"
        p2 == IF res = "ok" THEN r.total ELSE r.cdend
        f == FinishFails(res, p2, cl, 0)
    IN  /\ mode # "none" /\ fin = "no" /\ open = <<>>
        /\ nops' = nops /\ UNCHANGED <<lay, is64, pend>>
        /\ IF f # {} THEN last' = f /\ UNCHANGED <<wvars, raw>>
           ELSE Finish(res, p2, cl, 0) /\ last' = {} /\ raw' = IF res = "ok" THEN <<r, cl>> ELSE <<>>

MCNext == Start \/ DoWhole \/ DoWholeFault \/ DoOpen \/ DoFeed \/ DoCloseE \/ DoDrop \/ DoFinish
MCSpec == MCInit /\ [][MCNext]_mvars

---------------------------------------------------------------------------
Allowed == last = {}
Sound == raw # <<>> => RawFails(raw[1], listed, dead, raw[2], "cid") = {}
Obeys == raw # <<>> => ModeFails(raw[1]) = {}
MeansListed == raw # <<>> =>
    LET m == Meaning(raw[1]) IN
    /\ Len(m) = Len(listed)
    /\ \A i \in 1..Len(m) : m[i].name = listed[i].name.id /\ m[i].us = listed[i].us /\ m[i].cs = listed[i].cs
                            /\ m[i].data = listed[i].data /\ m[i].at = lay[i].loc.off
(* entries never overlap, and nothing listed lies in dead bytes *)
Disjoint == \A i, j \in 1..Len(lay) : i < j => lay[i].loc.dend <= lay[j].loc.off
ListedInOrder == Len(lay) = Len(listed)
=============================================================================
