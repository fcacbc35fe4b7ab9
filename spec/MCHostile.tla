------------------------------ MODULE MCHostile ------------------------------
(* Design check of reading hostile input (C06): the reader against an         *)
(* adversary who answers every number it reads from a source of Size bytes     *)
(* with any value.  Claims of a count are up to Big64, of a length up to      *)
(* Big16, of an offset up to Big64 (scaled).  Correct means: memory reserved  *)
(* ahead of data stays within a constant, memory held within the input and    *)
(* the work done in proportion to the input, every path ends, and no number   *)
(* leaves its range.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Size, Hdr, Big16, Big64, Hint
Min(a, b) == IF a < b THEN a ELSE b

VARIABLES pc, pos, left,   \* left: records still claimed
          reserved,        \* memory reserved on a claim, beyond the data at hand
          held,            \* memory filled with data from the source
          reads,           \* bytes read or records attempted so far
          area,            \* bytes of the extra area being parsed
          res
vars == <<pc, pos, left, reserved, held, reads, area, res>>

Init == pc = "end" /\ pos = 0 /\ left = 0 /\ reserved = 0 /\ held = 0 /\ reads = 0 /\ area = 0 /\ res = "none"
Stop(r) == pc' = "done" /\ res' = r /\ reserved' = 0

(* The end record and, through the locator, the ZIP64 record: offsets from    *)
(* the adversary, added to a constant without leaving the range.              *)
SatAdd(a, b) == Min(a + b, Big64)
EndRecord == \E n \in 0..Big64, off \in 0..Big64 :
    /\ pc = "end"
    /\ left' = n /\ pos' = SatAdd(off, 0) /\ pc' = "list" /\ reserved' = Min(n, Hint)
    /\ reads' = reads + 1 /\ UNCHANGED <<held, area, res>>
Zip64Record == \E off \in 0..Big64 :
    /\ pc = "end" /\ reads < 2 /\ reads' = reads + 1
    /\ pos' = SatAdd(off, 4) /\ UNCHANGED <<pc, left, reserved, held, area, res>>

Gone(n) == pos + n > Size       \* reading n more bytes meets the end of the input
Listing ==
    /\ pc = "list"
    /\ IF left = 0 THEN Stop("ok") /\ UNCHANGED <<pos, left, held, reads, area>>
       ELSE IF Gone(Hdr) THEN Stop("eof") /\ reads' = reads + 1 /\ UNCHANGED <<pos, left, held, area>>
       ELSE /\ pc' = "name" /\ pos' = pos + Hdr /\ reads' = reads + Hdr /\ left' = left - 1
            /\ UNCHANGED <<reserved, held, area, res>>
BadRecord == pc = "list" /\ left > 0 /\ ~Gone(Hdr) /\ Stop("error") /\ reads' = reads + Hdr /\ UNCHANGED <<pos, left, held, area>>

(* A length field: room for it is reserved, then it is read; if the input     *)
(* ends first, that is an error.                                              *)
Bytes(from, to) == \E n \in 0..Big16 :
    /\ pc = from
    /\ IF Gone(n) THEN Stop("eof") /\ reads' = reads + (Size - Min(pos, Size)) /\ UNCHANGED <<pos, left, held, area>>
       ELSE /\ pc' = to /\ pos' = pos + n /\ held' = held + n /\ reads' = reads + n
            /\ area' = (IF from = "extra" THEN n ELSE area)
            /\ UNCHANGED <<left, reserved, res>>
Name == Bytes("name", "extra")
ExtraB == Bytes("extra", "parse")
Comment == Bytes("comment", "list")

(* Parsing the extra area: every field takes its header and its claimed size, *)
(* which must lie inside the area.                                            *)
Parse ==
    /\ pc = "parse"
    /\ IF area < 1 THEN pc' = "comment" /\ UNCHANGED <<pos, left, reserved, held, reads, area, res>>
       ELSE \E n \in 0..Big16 :
            IF n + 1 > area THEN Stop("error") /\ UNCHANGED <<pos, left, held, reads, area>>
            ELSE area' = area - (n + 1) /\ reads' = reads + 1 /\ UNCHANGED <<pc, pos, left, reserved, held, res>>

Next == EndRecord \/ Zip64Record \/ Listing \/ BadRecord \/ Name \/ ExtraB \/ Comment \/ Parse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
ReservedBounded == reserved <= Hint
HeldBounded == held <= Size
WorkBounded == reads <= 4 + 3 * Size
InRange == pos <= Big64 + Size
AreaInRange == area >= 0
Ends == <>(pc = "done")
=============================================================================
