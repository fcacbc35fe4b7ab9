------------------------------ MODULE ZipStream ------------------------------
(* The non-seekable reader as a state machine over the archive's truth:       *)
(*   sidx   entries left behind                                               *)
(*   sst    "none", "idle" (between entries), "entry" (reading one),          *)
(*          "passed" (entry finished with, reader handed back), "end" (None), *)
(*          "failed"                                                          *)
(*   sgot   bytes delivered of the current entry                              *)
(*   seof   its end of file was seen                                          *)
(*   scrc   the CRC-32 its local header records (zero when a descriptor       *)
(*          follows), as the entry shows it                                   *)
EXTENDS ZipRead

VARIABLES sidx, sst, sgot, seof, scrc
svars == <<sidx, sst, sgot, seof, scrc>>
SInit == sidx = 0 /\ sst = "none" /\ sgot = Zero /\ seof = FALSE /\ scrc = ""

(* An entry the reader can neither delimit nor skip.                          *)
Undelimitable(t) == t.dd /\ t.m = 0

SNew == sst' = "idle" /\ sidx' = 0 /\ sgot' = Zero /\ seof' = FALSE /\ scrc' = ""

(* tail: what may come after the last entry ({"none"} unless damaged).        *)
NextExpected(ts, tail) ==
    IF sidx = Len(ts) THEN tail
    ELSE LET t == ts[sidx + 1]
             e == F(t, "errs", {}) \cup (IF Undelimitable(t) THEN {"FeatureNotSupported"} ELSE {})
         IN IF e # {} THEN e ELSE {"some"}

(* v: what the entry shows, present when it was asked for with its entry.     *)
SEntryFails(v, t) ==
    TextFails("stream: name", v.name, t.name)
    \cup Checks({ <<"stream: method", v.m = t.m>>,
                  <<"stream: date", v.dt = t.dt>>,
                  <<"stream: crc", t.dd \/ v.crc = t.crc>>,
                  <<"stream: uncompressed size", t.dd \/ v.us = t.us>>,
                  <<"stream: compressed size", t.dd \/ t.cs = <<>> \/ v.cs = t.cs>>,
                  <<"stream: dir()", v.dir = DirFlag(t)>> })

SNextFails(ts, tail, res, with, v) ==
    Checks({ <<"stream: next only between entries", sst = "idle">>,
             <<"stream: next entry (" \o res \o ")", res \in NextExpected(ts, tail)>> })
    \cup IF res = "some" /\ with /\ sidx < Len(ts) THEN SEntryFails(v, ts[sidx + 1]) ELSE {}
SNext(ts, tail, res, with, v) ==
    /\ SNextFails(ts, tail, res, with, v) = {}
    /\ sst' = CASE res = "some" -> "entry" [] res = "none" -> "end" [] OTHER -> "failed"
    /\ sgot' = Zero /\ seof' = FALSE
    /\ scrc' = IF res = "some" /\ with THEN v.crc ELSE ""
    /\ UNCHANGED sidx

(* n bytes were read in any number of calls; good: they are that slice of the *)
(* entry's data.                                                              *)
SReadFails(ts, n, good, eof, res) ==
    Checks({ <<"stream: read inside an entry", sst = "entry">> })
    \cup IF sst # "entry" THEN {} ELSE
    Checks({ <<"stream: read result (" \o res \o ")", res = "ok">>,
             <<"stream: data", good>>,
             <<"stream: no more than the entry's data", Le(Add(sgot, n), DataLen(ts[sidx + 1]))>>,
             <<"stream: end of file exactly after the data", ~eof \/ Add(sgot, n) = DataLen(ts[sidx + 1])>> })
SRead(ts, n, good, eof, res) ==
    /\ SReadFails(ts, n, good, eof, res) = {}
    /\ sgot' = Add(sgot, n) /\ seof' = (seof \/ eof)
    /\ UNCHANGED <<sidx, sst, scrc>>

(* A checked read compares with the CRC-32 the entry shows.                   *)
SCheckedExpected(t) == IF scrc = DataCrc(t) THEN "ok" ELSE "CRC32CheckError"
SCheckedFails(ts, n, good, res) ==
    IF sst # "entry" THEN {"stream: checked read inside an entry"}
    ELSE LET t == ts[sidx + 1] IN
         Checks({ <<"stream: checked read result (" \o res \o ")", res = SCheckedExpected(t)>>,
                  <<"stream: checked read data", good /\ n = DataLen(t)>> })
SChecked(ts, n, good, res) ==
    /\ SCheckedFails(ts, n, good, res) = {}
    /\ sgot' = n /\ seof' = TRUE
    /\ UNCHANGED <<sidx, sst, scrc>>

(* done(): succeeds exactly when everything was delivered, whether or not a   *)
(* read has returned 0 yet.                                                   *)
SDoneFails(ts, res) ==
    IF sst # "entry" THEN {"stream: done inside an entry"}
    ELSE LET all == sgot = DataLen(ts[sidx + 1]) IN
         Checks({ <<"stream: done at end of file (" \o res \o ")", ~all \/ res = "ok">>,
                  <<"stream: done before end of file (" \o res \o ")", all \/ res = "EOFNotReached">> })
SDone(ts, res) ==
    /\ SDoneFails(ts, res) = {}
    /\ sst' = IF res = "ok" THEN "idle" ELSE "failed"
    /\ sidx' = sidx + 1
    /\ UNCHANGED <<sgot, seof, scrc>>

SSkipFails(res) ==
    Checks({ <<"stream: skip inside an entry", sst = "entry">>, <<"stream: skip (" \o res \o ")", res = "ok">> })
SSkip(res) ==
    /\ SSkipFails(res) = {}
    /\ sst' = "idle" /\ sidx' = sidx + 1
    /\ UNCHANGED <<sgot, seof, scrc>>

SInnerFails == Checks({ <<"stream: into_inner between entries", sst = "idle">> })
SInner == SInnerFails = {} /\ UNCHANGED svars
=============================================================================
