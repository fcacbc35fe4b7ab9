----------------------------- MODULE ZipForeign ------------------------------
(* What the readers must make of an archive somebody else made.  g describes  *)
(* its records field by field, as they are in the bytes:                      *)
(*   g.found        there is an end record                                    *)
(*   g.end, g.z64   the end records (z64.has: locator present)                *)
(*   g.cid          archive comment                                           *)
(*   g.ents[i]      central record i and the local entry it describes: csig,  *)
(*                  lsig (signatures right), m/lm, fl/lfl, nb nutf8 nascii    *)
(*                  dir udir, cb cutf8 cascii, u32 c32 o32 cx (directory),    *)
(*                  lu32 lc32 lx (local), crc lcrc dt ia ea perm, off (where  *)
(*                  the local header is), pid pcrc plen (its data, decoded)   *)
(*   x (cx, lx)     extra area: over (a field exceeds the area), pshort,      *)
(*                  cshort (Unicode field too short), z, up, uc               *)
EXTENDS ZipStream

KnownMethods == {0, 8, 9, 12, 14, 93, 95}

ExtraErrors(x) ==
    (IF x.over THEN {"InvalidExtraFieldHeader"} ELSE {})
    \cup (IF x.pshort THEN {"InfoZipUnicodePathFieldIncomplete"} ELSE {})
    \cup (IF x.cshort THEN {"InfoZipUnicodeCommentFieldIncomplete"} ELSE {})
HeaderErrors(sig, m, x) ==
    IF ~sig THEN {"UnexpectedHeaderError"}
    ELSE (IF m \notin KnownMethods THEN {"CompressionNotSupported"} ELSE {}) \cup ExtraErrors(x)

(* The directory's records as the end records describe it.                    *)
Defer16(v, h, w) == IF h.has /\ v = Max16 THEN w ELSE v
Claimed(g) == DecodeEnd(g.end, g.z64).n
Listed(g) == IF Le(Claimed(g), V(Len(g.ents))) THEN CHOOSE k \in 0..Len(g.ents) : V(k) = Claimed(g) ELSE Len(g.ents)

(* Errors with which opening may end; empty: it must succeed.                 *)
DirErrors(g) ==
    IF ~g.found THEN {"UnableToLocateEOCDR"}
    ELSE LET e == DecodeEnd(g.end, g.z64)
             disk == Defer16(g.end.disk, g.z64, g.z64.rdisk)
             cdd  == Defer16(g.end.cdd, g.z64, g.z64.rcdd)
         IN (IF disk # cdd \/ e.n # e.nd THEN {"FeatureNotSupported"} ELSE {})
            \cup UNION { HeaderErrors(g.ents[i].csig, g.ents[i].m, g.ents[i].cx) : i \in 1..Listed(g) }
            \cup (IF Lt(V(Len(g.ents)), e.n) THEN {"UnexpectedHeaderError"} ELSE {})

Text(flag, basic, utf8, ascii, uni) ==
    LET d == DecodeText(flag, basic, ascii, uni)
    IN  [id |-> d.id, U |-> d.U /\ (~flag \/ utf8), ascii |-> FALSE, alt |-> d.alt]

DirTruth(c) ==
    LET d  == DecodeSizes(c.u32, c.c32, c.o32, c.cx.z)
        nm == Text(Bit(c.fl, 11), c.nb, c.nutf8, c.nascii, c.cx.up)
        cm == Text(Bit(c.fl, 11), c.cb, c.cutf8, c.cascii, c.cx.uc)
    IN  [ name |-> nm, cmt |-> cm, m |-> c.m, dt |-> c.dt, ia |-> c.ia, ea |-> c.ea, perm |-> c.perm,
          dir |-> IF nm.id = c.nb THEN c.dir ELSE c.udir, crc |-> c.crc, us |-> d.u, cs |-> d.c, at |-> d.o, data |-> c.pid,
          dd |-> Bit(c.fl, 3), open |-> IF c.lsig THEN "ok" ELSE "UnexpectedHeaderError",
          pcrc |-> c.pcrc, plen |-> c.plen, xn |-> c.xn, hs |-> c.hs ]

LocErrors(c) ==
    HeaderErrors(c.lsig, c.lm, c.lx)
    \cup (IF Bit(c.lfl, 0) THEN {"FeatureNotSupported"} ELSE {})
    \cup (IF Bit(c.lfl, 3) /\ c.lm = 0 THEN {"FeatureNotSupported"} ELSE {})

LocTruth(c) ==
    LET d  == DecodeSizes(c.lu32, c.lc32, V(0), c.lx.z)
        nm == Text(Bit(c.lfl, 11), c.nb, c.nutf8, c.nascii, c.lx.up)
    IN  [ name |-> nm, m |-> c.lm, dt |-> c.dt, dir |-> IF nm.id = c.nb THEN c.dir ELSE c.udir, crc |-> c.lcrc, us |-> d.u, cs |-> d.c,
          data |-> c.pid, dd |-> Bit(c.lfl, 3), pcrc |-> c.pcrc, plen |-> c.plen, errs |-> LocErrors(c) ]

(* After the last local entry: the directory, or the end records.             *)
After(g) == IF g.ents # <<>> /\ ~g.ents[1].csig THEN {"UnexpectedHeaderError"} ELSE {"none"}

Given(g) ==
    [ on |-> TRUE, z64 |-> g.z64.has, want |-> DirErrors(g), tail |-> After(g), loc |-> [ i \in 1..Len(g.ents) |-> LocTruth(g.ents[i]) ],
      dir |-> [ i \in 1..(IF g.found THEN Listed(g) ELSE 0) |-> DirTruth(g.ents[i]) ] ]
NotGiven == [ on |-> FALSE, z64 |-> FALSE, want |-> {}, tail |-> {"none"}, loc |-> <<>>, dir |-> <<>> ]

(* Extra fields as the reader shows them.                                     *)
ExtrasFails(v, g) ==
    IF v.res # "ok" THEN {}
    ELSE Checks({ <<"view: number of extra fields", \A i \in 1..v.n : v.ents[i].nx = g.dir[i].xn>> })
=============================================================================
