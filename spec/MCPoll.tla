------------------------------- MODULE MCPoll --------------------------------
(* Design check of the write path at the level of polls (C08, C09, C03): the  *)
(* layers between a streamed entry and the sink                               *)
(*    entry writer (hash, count)  >  encoder (own buffer)  >  offset counter  *)
(*    >  sink                                                                 *)
(* over a sink that at every poll accepts any part, is not ready, or fails,   *)
(* and a caller that offers its data in any pieces and may drop the entry at  *)
(* any point.  Correct means: positions are counted as the sink accepted,     *)
(* hashes and sizes as the entry's caller saw them accepted, the bytes of a   *)
(* closed entry are exactly header, encoded data, descriptor, whatever the    *)
(* schedule, and a failed or dropped entry leaves the others intact.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxEntries, MaxData, HeaderLen, MaxFaults, MaxPend

Min(a, b) == IF a < b THEN a ELSE b
From(s, k) == SubSeq(s, k + 1, Len(s))

VARIABLES
    plan,       \* the entries: [kind, n]
    i,          \* entry being written
    phase,      \* "idle" | "head" | "data" | "finish" | "tail" | "dir" | "done"
    at,         \* where this entry's header began, as the writer counted
    wbuf,       \* bytes of a write_all in progress (header, descriptor, directory)
    ebuf,       \* the encoder's output not yet taken by the sink
    given,      \* bytes of data the caller saw accepted
    hashed,     \* what the hasher was fed
    off, cnt,   \* the offset counter; its value when the data began
    sink,
    cds,        \* the entries listed: [i, at, n, crc, c]
    faults,     \* the sink's failures so far
    pend,       \* polls in a row at which the sink was not ready (progress is the sink's duty)
    failed      \* the call in progress met a fault
vars == <<plan, i, phase, at, wbuf, ebuf, given, hashed, off, cnt, sink, cds, faults, pend, failed>>

Hdr(e) == [ k \in 1..HeaderLen |-> <<"h", e, k>> ]
Dat(e, k) == <<"d", e, k>>
End(e) == IF plan[e].kind = "packed" THEN <<<<"e", e, 0>>>> ELSE <<>>
Descr(e) == <<<<"t", e, 0>>>>
Encoded(e) == [ k \in 1..plan[e].n |-> Dat(e, k) ] \o End(e)
EntryBytes(e) == Hdr(e) \o Encoded(e) \o Descr(e)
Dir == [ k \in 1..Len(cds) |-> <<"c", cds[k].i, cds[k].at>> ] \o <<<<"z", Len(cds), off>>>>

Init ==
    /\ plan \in UNION { [1..m -> [kind : {"stored", "packed"}, n : 0..MaxData]] : m \in 1..MaxEntries }
    /\ i = 1 /\ phase = "idle" /\ at = 0 /\ wbuf = <<>> /\ ebuf = <<>> /\ given = 0 /\ hashed = <<>> /\ off = 0 /\ cnt = 0
    /\ sink = <<>> /\ cds = <<>> /\ faults = 0 /\ pend = 0 /\ failed = FALSE

(* One poll of the sink with something to write: k accepted, not ready, error *)
Accept(s) == { k \in 1..Len(s) : TRUE }
SinkTakes(s, k) == sink' = sink \o SubSeq(s, 1, k) /\ off' = off + k /\ pend' = 0
NotReady == pend < MaxPend /\ pend' = pend + 1 /\ UNCHANGED <<plan, i, phase, at, wbuf, ebuf, given, hashed, off, cnt, sink, cds, faults, failed>>

Abandon ==      \* the entry is gone; what the sink took stays
    /\ i' = i + 1 /\ phase' = "idle" /\ wbuf' = <<>> /\ ebuf' = <<>> /\ given' = 0 /\ hashed' = <<>> /\ failed' = FALSE /\ pend' = 0
    /\ UNCHANGED <<plan, at, off, cnt, sink, cds>>

Begin ==
    /\ phase = "idle" /\ i <= Len(plan)
    /\ phase' = "head" /\ at' = off /\ wbuf' = Hdr(i) /\ UNCHANGED <<plan, i, ebuf, given, hashed, off, cnt, sink, cds, faults, pend, failed>>

(* write_all of header, descriptor or directory                               *)
WriteAll ==
    /\ phase \in {"head", "tail", "dir"} /\ wbuf # <<>>
    /\ \/ \E k \in Accept(wbuf) : SinkTakes(wbuf, k) /\ wbuf' = From(wbuf, k)
            /\ UNCHANGED <<plan, i, phase, at, ebuf, given, hashed, cnt, cds, faults, failed>>
       \/ NotReady
HeadDone == phase = "head" /\ wbuf = <<>> /\ phase' = "data" /\ cnt' = off
            /\ UNCHANGED <<plan, i, at, wbuf, ebuf, given, hashed, off, sink, cds, faults, pend, failed>>

Offer(m) == [ k \in 1..m |-> Dat(i, given + k) ]
(* poll_write on a stored entry goes to the sink as it is.                    *)
WriteStored == \E m \in 1..2 :
    /\ phase = "data" /\ plan[i].kind = "stored" /\ given + m <= plan[i].n
    /\ \/ \E k \in Accept(Offer(m)) :
            SinkTakes(Offer(m), k) /\ given' = given + k /\ hashed' = hashed \o SubSeq(Offer(m), 1, k)
            /\ UNCHANGED <<plan, i, phase, at, wbuf, ebuf, cnt, cds, faults, failed>>
       \/ NotReady
(* poll_write on an encoder: first its buffer must go, then it takes input.   *)
Drain ==
    /\ phase \in {"data", "finish"} /\ ebuf # <<>>
    /\ \/ \E k \in Accept(ebuf) : SinkTakes(ebuf, k) /\ ebuf' = From(ebuf, k)
            /\ UNCHANGED <<plan, i, phase, at, wbuf, given, hashed, cnt, cds, faults, failed>>
       \/ NotReady
Encode == \E m \in 1..2 :
    /\ phase = "data" /\ plan[i].kind = "packed" /\ ebuf = <<>> /\ given + m <= plan[i].n
    /\ \E k \in 1..m : ebuf' = SubSeq(Offer(m), 1, k) /\ given' = given + k /\ hashed' = hashed \o SubSeq(Offer(m), 1, k)
    /\ UNCHANGED <<plan, i, phase, at, wbuf, off, cnt, sink, cds, faults, pend, failed>>

Close ==
    /\ phase = "data" /\ given = plan[i].n
    /\ phase' = "finish" /\ ebuf' = ebuf \o End(i)
    /\ UNCHANGED <<plan, i, at, wbuf, given, hashed, off, cnt, sink, cds, faults, pend, failed>>
(* sizes are what was counted when the encoder is done                        *)
Described ==
    /\ phase = "finish" /\ ebuf = <<>>
    /\ phase' = "tail" /\ wbuf' = Descr(i) /\ cnt' = off - cnt
    /\ UNCHANGED <<plan, i, at, ebuf, given, hashed, off, sink, cds, faults, pend, failed>>
Listed ==
    /\ phase = "tail" /\ wbuf = <<>>
    /\ cds' = Append(cds, [i |-> i, at |-> at, n |-> given, crc |-> hashed, c |-> cnt])
    /\ i' = i + 1 /\ phase' = "idle" /\ given' = 0 /\ hashed' = <<>>
    /\ UNCHANGED <<plan, at, wbuf, ebuf, off, cnt, sink, faults, pend, failed>>

(* The sink fails at a poll: the call in progress ends with that error, and   *)
(* the entry is given up.  Dropping may happen between any two polls.         *)
Fault ==
    /\ faults < MaxFaults /\ phase \in {"head", "data", "finish", "tail"}
    /\ (wbuf # <<>> \/ ebuf # <<>> \/ (phase = "data" /\ given < plan[i].n))
    /\ Abandon /\ faults' = faults + 1
Drop == phase \in {"head", "data", "finish", "tail"} /\ Abandon /\ UNCHANGED faults

Finish ==
    /\ phase = "idle" /\ i > Len(plan)
    /\ phase' = "dir" /\ wbuf' = Dir /\ at' = off
    /\ UNCHANGED <<plan, i, ebuf, given, hashed, off, cnt, sink, cds, faults, pend, failed>>
AllDone == phase = "dir" /\ wbuf = <<>> /\ phase' = "done"
           /\ UNCHANGED <<plan, i, at, wbuf, ebuf, given, hashed, off, cnt, sink, cds, faults, pend, failed>>

Next == Begin \/ WriteAll \/ HeadDone \/ WriteStored \/ Drain \/ Encode \/ Close \/ Described \/ Listed \/ Fault \/ Drop \/ Finish \/ AllDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
OffsetCounts == off = Len(sink)
HashIsAccepted == hashed = [ k \in 1..given |-> Dat(i, k) ]
(* every listed entry lies, whole and unmixed, where the directory says       *)
ListedIntact ==
    \A k \in 1..Len(cds) : LET d == cds[k] IN
        /\ d.at + Len(EntryBytes(d.i)) <= Len(sink)
        /\ SubSeq(sink, d.at + 1, d.at + Len(EntryBytes(d.i))) = EntryBytes(d.i)
        /\ d.n = plan[d.i].n /\ d.crc = [ j \in 1..d.n |-> Dat(d.i, j) ] /\ d.c = Len(Encoded(d.i))
InOrder == \A j, k \in 1..Len(cds) : j < k => cds[j].i < cds[k].i /\ cds[j].at + Len(EntryBytes(cds[j].i)) <= cds[k].at
DirectoryWhole == phase = "done" => SubSeq(sink, at + 1, Len(sink)) = [ k \in 1..Len(cds) |-> <<"c", cds[k].i, cds[k].at>> ] \o <<<<"z", Len(cds), at>>>>
(* without faults and drops the bytes do not depend on the schedule           *)
RECURSIVE Concat(_)
Concat(k) == IF k = 0 THEN <<>> ELSE Concat(k - 1) \o EntryBytes(k)
Deterministic == (phase = "done" /\ Len(cds) = Len(plan)) => SubSeq(sink, 1, at) = Concat(Len(plan))
Terminates == <>(phase = "done")
=============================================================================
