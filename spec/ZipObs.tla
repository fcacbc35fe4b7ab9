------------------------------- MODULE ZipObs --------------------------------
(* Observations of one call on one constructed input: the outcome is a        *)
(* function of the input, so each family is judged by one pure operator.      *)
EXTENDS ZipLayout

---------------------------------------------------------------------------
(* DOS dates (C14).  A date word is year-1980 : 7, month : 4, day : 5; a time *)
(* word is hour : 5, minute : 6, second/2 : 5.                                *)
DateOf(w) == [y |-> 1980 + w \div 512, mo |-> (w \div 32) % 16, d |-> w % 32]
TimeOf(w) == [h |-> w \div 2048, mi |-> (w \div 32) % 64, s |-> 2 * (w % 32)]
Fields(d, t) == <<DateOf(d).y, DateOf(d).mo, DateOf(d).d, TimeOf(t).h, TimeOf(t).mi, TimeOf(t).s>>

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 0
Calendar(f) == f[2] \in 1..12 /\ f[3] \in 1..MonthDays(f[1], f[2]) /\ f[4] < 24 /\ f[5] < 60 /\ f[6] < 60

(* A builder starts from the fields f0; each call replaces its own field.     *)
Slot(n) == CASE n = "year" -> 1 [] n = "month" -> 2 [] n = "day" -> 3 [] n = "hour" -> 4 [] n = "minute" -> 5 [] n = "second" -> 6
RECURSIVE Apply(_, _, _)
Apply(f, calls, k) ==
    IF k > Len(calls) THEN f
    ELSE LET j == Slot(calls[k].f)
             v == IF j = 6 THEN 2 * (calls[k].v \div 2) ELSE calls[k].v
         IN  Apply([f EXCEPT ![j] = v], calls, k + 1)

ToChrono(f) == IF Calendar(f) THEN f ELSE <<>>
(* cell: words d, t as they are in the archive; f: accessors; ch: to chrono.  *)
DosFails(ev) ==
    Checks({ <<"dos: every entry is there", ev.n = ev.want>>,
             <<"dos: accessors return the fields of the word",
                \A k \in 1..Len(ev.cells) : LET c == ev.cells[k] IN c.f = Fields(c.d, c.t)>>,
             <<"dos: to chrono exactly for calendar dates",
                \A k \in 1..Len(ev.cells) : LET c == ev.cells[k] IN c.ch = ToChrono(Fields(c.d, c.t))>> })
(* A builder started from words d0, t0 (0, 0 for a new one); words: all that  *)
(* the archive written with the result carries (2 local, 2 central).          *)
BuildFails(ev) ==
    LET f == Apply(Fields(ev.d0, ev.t0), ev.calls, 1)
    IN  Checks({ <<"dos: builder replaces exactly the fields set", ev.f = f>>,
                 <<"dos: words in the archive", Len(ev.words) = 4 /\ \A k \in 1..Len(ev.words) : Fields(ev.words[k][1], ev.words[k][2]) = f>>,
                 <<"dos: built date to chrono exactly for calendar dates", ev.ch = ToChrono(f)>> })
(* from chrono and back: seconds rounded down to even                         *)
Even(g) == [g EXCEPT ![6] = 2 * (@ \div 2)]
ChronoFails(ev) ==
    Checks({ <<"dos: from chrono", \A k \in 1..Len(ev.cells) : ev.cells[k].f = Even(ev.cells[k].g)>>,
             <<"dos: all conversions from chrono agree", \A k \in 1..Len(ev.cells) : ev.cells[k].same>>,
             <<"dos: chrono there and back", \A k \in 1..Len(ev.cells) : ev.cells[k].ch = Even(ev.cells[k].g)>> })

---------------------------------------------------------------------------
(* Checked reads (C05).                                                       *)
(* rec: recorded CRC; dec: the stored bytes decode; all: CRC of everything    *)
(* delivered by this reader; utf8: what this call appends is UTF-8; rest: how *)
(* much is left to append; kept: what was in the buffer before is still in    *)
(* front; good: what follows is exactly the rest of the data.                 *)
CheckedFails(ev) ==
    LET right == ev.dec /\ ev.rec = ev.all
        utf   == ev.api = "end" \/ ev.utf8
    IN  Checks({ <<"checked: accepted data that does not match the recorded CRC-32", ev.res = "ok" => right>>,
                 <<"checked: accepted a string that is not UTF-8", ev.res = "ok" => utf>>,
                 <<"checked: refused right data (" \o ev.res \o ")", (right /\ utf) => ev.res = "ok">>,
                 <<"checked: a mismatch is a CRC or decode error (" \o ev.res \o ")",
                    ev.res = "ok" \/ ev.res = "CRC32CheckError" \/ (~utf /\ ev.io) \/ (~ev.dec /\ ev.io)>>,
                 <<"checked: appends exactly the data", ev.res = "ok" => (ev.kept /\ ev.good)>>,
                 <<"checked: returns the number of bytes appended", ev.res = "ok" => ev.ret = ev.rest>> })
HashFails(ev) ==
    Checks({ <<"hash: compute_hash is the CRC-32 of the bytes delivered", ev.got = ev.want>>,
             <<"hash: everything was delivered", ev.res = "ok" /\ ev.all>> })

---------------------------------------------------------------------------
(* Hostile input (C06): any result will do, but memory and work stay in       *)
(* proportion (KiB; operations on the source).                                *)
HostileFails(ev) ==
    Checks({ <<"hostile: memory in proportion to the input", ev.peak <= 65536 + 16 * ev.len + 4 * ev.out>>,
             <<"hostile: work in proportion to the input", ev.ops <= 4000 + 4 * ev.bytes + 64 * ev.out>> })

---------------------------------------------------------------------------
(* Locating the end record (C11).                                             *)
FindFails(ev) ==
    Checks({ <<"find: the end record is found (" \o c.res \o ", comment " \o c.why \o ")", c.res = "ok" /\ c.n = c.wn /\ c.cl = c.clen /\ c.good>> : c \in { ev.cells[k] : k \in 1..Len(ev.cells) } })
NoEndFails(ev) ==
    Checks({ <<"find: no end record gives UnableToLocateEOCDR, not " \o c, c = "UnableToLocateEOCDR">> : c \in { ev.cells[k] : k \in 1..Len(ev.cells) } })

---------------------------------------------------------------------------
(* Truncation (C18).  Cell: cut position k of an archive of `total` bytes.    *)
CutDirFails(ev) ==
    Checks({ <<"cut: a truncated archive does not open", \A j \in 1..Len(ev.cells) : ev.cells[j].res # "ok">> })
(* Streaming: ents[i] = [dend (end of its data), end (incl. descriptor)];     *)
(* cd: start of the directory.  Per cut: for each entry met, how reading it   *)
(* ended and whether the bytes were right; last: how the walk ended.          *)
CutStreamFails(ev) ==
    LET Whole(k) == Cardinality({ i \in 1..Len(ev.ents) : ev.ents[i].end <= k })
    IN  Checks({
        <<"cut: streaming ends with None only when the directory was reached",
            \A j \in 1..Len(ev.cells) : ev.cells[j].last = "none" => ev.cells[j].k >= ev.cd + 4>>,
        <<"cut: entries before the cut are delivered intact",
            \A j \in 1..Len(ev.cells) : LET c == ev.cells[j] IN
                /\ Len(c.rd) >= Whole(c.k)
                /\ \A i \in 1..Whole(c.k) : c.rd[i].res = "ok" /\ c.rd[i].good /\ c.rd[i].fin = "ok">>,
        <<"cut: a checked read of the cut entry fails",
            \A j \in 1..Len(ev.cells) : LET c == ev.cells[j] IN
                \A i \in 1..Len(c.rd) : (c.k < ev.ents[i].dend /\ c.rd[i].chk) => c.rd[i].res # "ok">>,
        <<"cut: no entry is finished whose descriptor is cut",
            \A j \in 1..Len(ev.cells) : LET c == ev.cells[j] IN
                \A i \in 1..Len(c.rd) : (c.k < ev.ents[i].end /\ c.rd[i].dd) => c.rd[i].fin # "ok">>,
        <<"cut: no entry is listed whose header is cut",
            \A j \in 1..Len(ev.cells) : LET c == ev.cells[j] IN
                \A i \in 1..Len(c.rd) : c.k >= ev.ents[i].hend>>,
        <<"cut: what was delivered is right",
            \A j \in 1..Len(ev.cells) : \A i \in 1..Len(ev.cells[j].rd) : ev.cells[j].rd[i].good>> })

(* Source errors: a call during which the source failed reports exactly that  *)
(* error; a call during which it did not is unaffected.                       *)
SrcErrFails(ev) ==
    Checks({ <<"source error: passed on by the call that met it (" \o c.call \o ": " \o c.res \o ")", c.faults = 0 \/ c.res = "Io:ConnectionReset">> : c \in { ev.calls[k] : k \in 1..Len(ev.calls) } }
           \cup { <<"source error: other calls succeed (" \o c.call \o ": " \o c.res \o ")", c.faults > 0 \/ (c.res = "ok" /\ c.good)>> : c \in { ev.calls[k] : k \in 1..Len(ev.calls) } })

---------------------------------------------------------------------------
(* Archives of very many small entries (C04).                                 *)
CountFails(ev) ==
    LET over == ev.mode = "no64" /\ ev.n > 65535 IN
    Checks({ <<"count: accepted entries", IF over THEN ev.okn \in {65534, 65535} ELSE ev.okn = ev.n \/ (ev.mode = "no64" /\ ev.n = 65535 /\ ev.okn = 65534)>>,
             <<"count: one too many is refused with Zip64Needed", ev.okn = ev.n \/ ev.ref = "Zip64Needed">>,
             <<"count: the archive is closed (" \o ev.fin \o ")", ev.fin = "ok">>,
             <<"count: end records give the true number", ev.fin = "ok" => ev.claimed = ev.okn /\ ev.onDisk = ev.okn /\ ev.parsed = ev.okn>>,
             <<"count: directory where the end records say", ev.fin = "ok" => Add(ev.co, ev.cs) = ev.cdend>>,
             <<"count: all names in order", ev.fin = "ok" => ev.names>>,
             <<"count: no ZIP64 records when forbidden", ev.mode = "no64" => ~ev.z64>>,
             <<"count: ZIP64 records when forced or needed", (ev.mode = "force64" \/ ev.okn > 65535) => ev.z64>>,
             <<"count: the readers list them all (" \o ev.rres \o ")", ev.fin = "ok" => ev.rres = "ok" /\ ev.rn = ev.okn /\ ev.rnames>>,
             <<"count: the stream reader meets them all (" \o ev.sres \o ")", (ev.fin = "ok" /\ ev.okn = ev.n) => ev.sres = "none" /\ ev.sn = ev.okn>> })

(* A directory of exactly `want` bytes.                                       *)
BigDirFails(ev) ==
    LET over == Lt(Max32, ev.want) \/ Lt(Max32, ev.pos) IN
    Checks({ <<"bigdir: all entries accepted (" \o ev.ref \o ")", ev.okn = ev.n \/ (ev.mode = "no64" /\ Le(Max32, ev.pos) /\ ev.ref = "Zip64Needed")>>,
             <<"bigdir: close (" \o ev.fin \o ")", IF ev.mode = "no64" THEN ev.fin = (IF over THEN "Zip64Needed" ELSE ev.fin) /\ ev.fin \in {"ok", "Zip64Needed"} ELSE ev.fin = "ok">>,
             <<"bigdir: size of the directory", ev.fin = "ok" => ev.cs = ev.want /\ Add(ev.co, ev.cs) = ev.cdend /\ ev.co = ev.pos>>,
             <<"bigdir: number of entries", ev.fin = "ok" => ev.claimed = ev.n>>,
             <<"bigdir: ZIP64 records", ev.fin = "ok" => (over => ev.z64) /\ (ev.mode = "no64" => ~ev.z64) /\ (ev.mode = "force64" => ev.z64)>>,
             <<"bigdir: the reader lists them all (" \o ev.rres \o ")", ev.fin = "ok" => ev.rres = "ok" /\ ev.rn = ev.n>> })

ObsFails(ev) ==
    CASE ev.fam = "dos"     -> DosFails(ev)
      [] ev.fam = "build"   -> BuildFails(ev)
      [] ev.fam = "chrono"  -> ChronoFails(ev)
      [] ev.fam = "checked" -> CheckedFails(ev)
      [] ev.fam = "hash"    -> HashFails(ev)
      [] ev.fam = "hostile" -> HostileFails(ev)
      [] ev.fam = "find"    -> FindFails(ev)
      [] ev.fam = "noend"   -> NoEndFails(ev)
      [] ev.fam = "cutdir"  -> CutDirFails(ev)
      [] ev.fam = "cutstream" -> CutStreamFails(ev)
      [] ev.fam = "srcerr"  -> SrcErrFails(ev)
      [] ev.fam = "count"   -> CountFails(ev)
      [] ev.fam = "bigdir"  -> BigDirFails(ev)
      [] OTHER -> { "no such observation" }
=============================================================================
