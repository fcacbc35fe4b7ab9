------------------------------ MODULE MCStream -------------------------------
(* Design check of the streaming reader (C02, C07, C16, C18): this crate's    *)
(* way of walking a non-seekable source (read a signature; read the header;   *)
(* read the data through a length limit or up to the decoder's own end; take  *)
(* the descriptor), as an algorithm over a tape of cells, composed with the   *)
(* abstract stream reader of ZipStream.                                       *)
(* TLC explores every archive of up to MaxEntries entries over an alphabet of *)
(* kinds of entry, cut at every cell, under every sequence of next, read,     *)
(* checked read, done and skip and every split of the reads.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxEntries, MaxData, Faults

PlusN(a, b) == a + b
LeN(a, b) == a <= b
IdN(n) == n

VARIABLES sidx, sst, sgot, seof, scrc
INSTANCE ZipStream WITH Add <- PlusN, Le <- LeN, V <- IdN, Max32 <- 60, Max16 <- 60, MaxLen <- 60,
    LFH <- 30, CDH <- 46, EOCD <- 22, Z64R <- 56, Z64L <- 20, DD16 <- 16, DD24 <- 24

---------------------------------------------------------------------------
(* Kinds of entries.  kind: "stored", "packed" (self-delimiting data),        *)
(* "unknown" (method), "locked" (encrypted); d: descriptor "no", "sig",       *)
(* "bare"; n: bytes of data.                                                  *)
Kinds == [k : {"stored", "packed"}, d : {"no"}, n : 0..MaxData]
         \cup [k : {"packed"}, d : {"sig", "bare"}, n : 0..MaxData]
         \cup [k : {"stored"}, d : {"sig"}, n : {1}]
         \cup (IF Faults THEN [k : {"unknown", "locked"}, d : {"no"}, n : {1}] ELSE {})

Cells(e, i) ==
    <<[c |-> "L", i |-> i, k |-> 0], [c |-> "h", i |-> i, k |-> 0]>>
    \o [ k \in 1..e.n |-> [c |-> "d", i |-> i, k |-> k] ]
    \o (IF e.k = "packed" THEN <<[c |-> "e", i |-> i, k |-> 0]>> ELSE <<>>)
    \o (IF e.d = "sig" THEN <<[c |-> "G", i |-> i, k |-> 0]>> ELSE <<>>)
    \o (IF e.d = "no" THEN <<>> ELSE <<[c |-> "q", i |-> i, k |-> 1], [c |-> "q", i |-> i, k |-> 2]>>)
DLen(e) == e.n + IF e.k = "packed" THEN 1 ELSE 0      \* cells of its data
RECURSIVE TapeOf(_, _)
TapeOf(es, i) == IF i > Len(es) THEN <<[c |-> (IF es = <<>> THEN "Z" ELSE "C"), i |-> 0, k |-> 0], [c |-> "r", i |-> 0, k |-> 0]>>
                 ELSE Cells(es[i], i) \o TapeOf(es, i + 1)

Truth(e, i) ==
    [ m |-> IF e.k = "stored" THEN 0 ELSE 8, dd |-> e.d # "no", crc |-> <<i, e.n>>, us |-> e.n, data |-> i,
      errs |-> CASE e.k = "unknown" -> {"CompressionNotSupported"} [] e.k = "locked" -> {"FeatureNotSupported"} [] OTHER -> {} ]

VARIABLES ents, tape, cut,   \* the archive; the source ends after `cut` cells
          p,                 \* cells consumed from the source
          lim,               \* cells the length limit still lets through
          dec,               \* the decoder: "off", "run", "ended", "broken"
          out,               \* the data delivered of the current entry
          why,               \* how the last call ended
          bad                \* what the abstract reader objects to
cvars == <<ents, tape, cut, p, lim, dec, out, why, bad>>
sv == <<sidx, sst, sgot, seof, scrc>>
vars == <<sv, cvars>>
NoLim == 1000

Ts == [ i \in 1..Len(ents) |-> Truth(ents[i], i) ]
Min2(a, b) == IF a < b THEN a ELSE b
AtCut == p >= cut
Whole == cut = Len(tape)

Init ==
    /\ \E n \in 0..MaxEntries : ents \in [1..n -> Kinds]
    /\ tape = TapeOf(ents, 1)
    /\ cut \in 0..Len(tape)
    /\ SInit /\ p = 0 /\ lim = 0 /\ dec = "off" /\ out = <<>> /\ why = "ok" /\ bad = {}

(* Every concrete step reports what the abstract reader is told.  On a whole  *)
(* archive it must be a step of the abstract reader; on a cut one the end of  *)
(* the source may show as an error instead.                                   *)
Told(fails, act) ==
    IF Whole THEN (IF fails = {} THEN act /\ bad' = bad ELSE bad' = fails /\ UNCHANGED sv)
    ELSE act /\ bad' = bad

New == sst = "none" /\ SNew /\ UNCHANGED cvars

(* The signature tells what follows.                                          *)
NextRes ==
    IF AtCut THEN "Io"
    ELSE LET s == tape[p + 1] IN
         CASE s.c = "L" -> IF p + 2 > cut THEN "Io"
                           ELSE LET e == ents[s.i] IN
                                IF e.k = "unknown" THEN "CompressionNotSupported"
                                ELSE IF e.k = "locked" \/ (e.k = "stored" /\ e.d # "no") THEN "FeatureNotSupported" ELSE "some"
           [] s.c \in {"C", "Z"} -> "none"
           [] OTHER -> "UnexpectedHeaderError"
Next_ ==
    /\ sst = "idle"
    /\ LET r == NextRes IN
       /\ why' = r
       /\ Told(SNextFails(Ts, {"none"}, r, FALSE, <<>>),
               /\ sst' = CASE r = "some" -> "entry" [] r = "none" -> "end" [] OTHER -> "failed"
               /\ sgot' = 0 /\ seof' = FALSE /\ scrc' = (IF r = "some" THEN <<tape[p + 1].i, ents[tape[p + 1].i].n>> ELSE "") /\ UNCHANGED sidx)
       /\ IF r = "some"
          THEN LET e == ents[tape[p + 1].i] IN
               /\ p' = p + 2 /\ lim' = (IF e.d = "no" THEN DLen(e) ELSE NoLim)
               /\ dec' = (IF e.k = "stored" THEN "off" ELSE "run") /\ out' = <<>>
          ELSE p' = (IF AtCut THEN p ELSE p + 1) /\ UNCHANGED <<lim, dec, out>>
    /\ UNCHANGED <<ents, tape, cut>>

(* What one read of at most m bytes can deliver: <<result, cells consumed,    *)
(* bytes, state of the decoder>>.  A decoder may report its last byte before  *)
(* or after it has consumed its end marker.                                   *)
Avail(m) == { k \in 0..m : k <= lim /\ p + k <= cut }
RECURSIVE DataRun(_)
DataRun(k) == \A j \in 1..k : tape[p + j].c = "d"
Reads(m) ==
    IF dec = "ended" THEN { <<"ok", 0, 0, "ended">> }
    ELSE IF dec = "off"
    THEN LET ks == { k \in Avail(m) : k > 0 } IN
         IF ks = {} THEN { <<"ok", 0, 0, "off">> } ELSE { <<"ok", k, k, "off">> : k \in ks }
    ELSE LET ks == { k \in Avail(m) : k > 0 /\ DataRun(k) }
             \* consumed k data cells, then possibly the end marker
             fin == { k \in 0..m : k < lim /\ p + k < cut /\ DataRun(k) /\ tape[p + k + 1].c = "e" }
         IN  { <<"ok", k, k, "run">> : k \in ks } \cup { <<"ok", k + 1, k, "ended">> : k \in fin }
             \cup (IF ks \cup fin = {} THEN { <<"Io", 0, 0, "broken">> } ELSE {})
Bytes(n) == [ k \in 1..n |-> tape[p + k] ]
Good(o) == \A k \in 1..Len(o) : o[k] = [c |-> "d", i |-> sidx + 1, k |-> k]
Apply(r) == p' = p + r[2] /\ lim' = (IF lim = NoLim THEN NoLim ELSE lim - r[2]) /\ dec' = r[4] /\ out' = out \o Bytes(r[3])

Read == \E m \in 1..2, r \in Reads(2) :
    /\ sst = "entry" /\ dec # "broken" /\ r[3] <= m
    /\ Apply(r) /\ why' = r[1]
    /\ Told(SReadFails(Ts, r[3], Good(out \o Bytes(r[3])), r[3] = 0, r[1]),
            IF r[1] = "ok" THEN sgot' = sgot + r[3] /\ seof' = (seof \/ r[3] = 0) /\ UNCHANGED <<sidx, sst, scrc>>
            ELSE sst' = "failed" /\ UNCHANGED <<sidx, sgot, seof, scrc>>)
    /\ UNCHANGED <<ents, tape, cut>>

(* Reading to the end: the closure of reads until one delivers nothing.       *)
RECURSIVE Drain(_, _, _, _)
Drain(q, l, d, o) ==        \* <<result, p, decoder, data>>
    IF d = "ended" THEN <<"ok", q, d, o>>
    ELSE IF d = "off"
    THEN IF l = 0 \/ q >= cut THEN <<"ok", q, d, o>> ELSE Drain(q + 1, l - 1, d, Append(o, tape[q + 1]))
    ELSE IF l = 0 \/ q >= cut THEN <<"Io", q, "broken", o>>
    ELSE IF tape[q + 1].c = "d" THEN Drain(q + 1, l - 1, d, Append(o, tape[q + 1]))
    ELSE IF tape[q + 1].c = "e" THEN <<"ok", q + 1, "ended", o>> ELSE <<"Io", q, "broken", o>>
Crc(o) == <<sidx + 1, IF Good(o) THEN Len(o) ELSE 99>>
Checked ==
    /\ sst = "entry" /\ dec # "broken" /\ ~ents[sidx + 1].d \in {"sig", "bare"}
    /\ LET r == Drain(p, lim, dec, out)
           res == IF r[1] # "ok" THEN r[1] ELSE IF Crc(r[4]) = scrc THEN "ok" ELSE "CRC32CheckError" IN
       /\ why' = res
       /\ p' = r[2] /\ lim' = (IF lim = NoLim THEN NoLim ELSE lim - (r[2] - p)) /\ dec' = r[3] /\ out' = r[4]
       /\ bad' = bad \cup (IF Whole THEN (IF sgot = 0 THEN SCheckedFails(Ts, Len(r[4]), Good(r[4]), res) ELSE {})
                           ELSE IF res = "ok" /\ Len(r[4]) # ents[sidx + 1].n THEN {"a cut entry passed its check"} ELSE {})
       /\ IF res = "ok" THEN sgot' = Len(r[4]) /\ seof' = TRUE /\ UNCHANGED <<sidx, sst, scrc>>
          ELSE sst' = "failed" /\ UNCHANGED <<sidx, sgot, seof, scrc>>
    /\ UNCHANGED <<ents, tape, cut>>

(* The descriptor: three cells if it begins with the signature, else two.     *)
Consume(q) ==
    IF ents[sidx + 1].d = "no" THEN <<"ok", q>>
    ELSE IF q + 2 > cut THEN <<"Io", q>>
    ELSE IF tape[q + 1].c = "G" THEN (IF q + 3 > cut THEN <<"Io", q>> ELSE <<"ok", q + 3>>) ELSE <<"ok", q + 2>>

Done ==
    /\ sst = "entry" /\ dec # "broken"
    /\ LET one == Reads(1)
           more == \E r \in one : r[3] > 0
           r0 == IF more THEN CHOOSE r \in one : r[3] > 0 ELSE CHOOSE r \in one : TRUE
           c == Consume(p + r0[2])
           res == IF r0[1] # "ok" THEN "Io" ELSE IF more THEN "EOFNotReached" ELSE c[1] IN
       /\ why' = res
       /\ Told(SDoneFails(Ts, res), sst' = (IF res = "ok" THEN "idle" ELSE "failed") /\ sidx' = sidx + 1 /\ UNCHANGED <<sgot, seof, scrc>>)
       /\ p' = (IF res = "ok" THEN c[2] ELSE p) /\ dec' = "off" /\ lim' = 0 /\ UNCHANGED out
    /\ UNCHANGED <<ents, tape, cut>>

Skip ==
    /\ sst = "entry" /\ dec # "broken"
    /\ LET r == Drain(p, lim, dec, out)
           c == Consume(r[2])
           res == IF r[1] # "ok" THEN "Io" ELSE c[1] IN
       /\ why' = res
       /\ Told(SSkipFails(res), sst' = (IF res = "ok" THEN "idle" ELSE "failed") /\ sidx' = sidx + 1 /\ UNCHANGED <<sgot, seof, scrc>>)
       /\ p' = c[2] /\ dec' = "off" /\ lim' = 0 /\ UNCHANGED out
    /\ UNCHANGED <<ents, tape, cut>>

Next == New \/ Next_ \/ Read \/ Checked \/ Done \/ Skip
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Conforms == bad = {}
(* Between entries the reader stands exactly at the next signature.           *)
RECURSIVE StartOf(_)
StartOf(i) == IF i = 1 THEN 0 ELSE StartOf(i - 1) + Len(Cells(ents[i - 1], i - 1))
InSync == Whole /\ sst = "idle" => p = StartOf(sidx + 1)
(* Nothing but the entry's own data, in order, is ever delivered.             *)
OwnData == sst = "entry" => Good(out)
(* The end is reported only when the directory was reached ...                *)
NoFalseEnd == sst = "end" => sidx = Len(ents) /\ cut > StartOf(Len(ents) + 1)
(* ... and a cut shows only where it is: a call that ran out of source was    *)
(* about something that does not lie entirely before the cut.                 *)
BeforeCutDelivered == (sst = "failed" /\ why \in {"Io", "CRC32CheckError"}) => cut < Len(tape) /\ StartOf(Min2(sidx + 1, Len(ents) + 1)) + (IF sidx < Len(ents) THEN Len(Cells(ents[sidx + 1], sidx + 1)) ELSE 1) >= cut
(* Errors are those of the entry that has them (C16).                         *)
RightErrors == sst = "failed" => why \in {"Io", "EOFNotReached", "CRC32CheckError"} \/ (sidx < Len(ents) /\ why \in NextExpected(Ts, {"none"}))
=============================================================================
