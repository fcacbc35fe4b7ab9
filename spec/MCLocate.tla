------------------------------ MODULE MCLocate -------------------------------
(* Design check of locating the end record (C11): the windowed reverse search *)
(* as an algorithm over a source that may deliver short reads, on every file  *)
(* of up to MaxFile bytes over a five-letter alphabet, with the window and    *)
(* the reach scaled down: the signature has 2 bytes, the fixed part of the    *)
(* record Fixed bytes after it, the last of them the length of the comment    *)
(* (at most MaxCmt bytes).                                                    *)
(*                                                                            *)
(* Correct means: the record returned is the last one whose comment ends with *)
(* the file; only if there is none is it the last signature; and it gives up  *)
(* only if no signature lies where the record of an archive can be.           *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxFile, Window, Fixed, MaxCmt

Sig == <<80, 75>>
Alphabet == {80, 75} \cup 0..MaxCmt
SigLen == Len(Sig)
Reach == Fixed + SigLen + MaxCmt
Minus(a, b) == IF a > b THEN a - b ELSE 0
Min(a, b) == IF a < b THEN a ELSE b

VARIABLES file, st, position, filled, last, result
vars == <<file, st, position, filled, last, result>>

Init ==
    /\ \E n \in 0..MaxFile : file \in [1..n -> Alphabet]
    /\ st = "fill" /\ position = Minus(Len(file), Window) /\ filled = 0 /\ last = <<>> /\ result = <<>>

(* One read: a byte, or all that is left of window and file.                  *)
Fill ==
    /\ st = "fill"
    /\ LET room == Min(Window - filled, Minus(Len(file), position + filled)) IN
       IF room = 0 THEN st' = "search" /\ UNCHANGED filled
       ELSE \E k \in {1, room} : filled' = filled + k /\ UNCHANGED st
    /\ UNCHANGED <<file, position, last, result>>

(* Reverse search in the buffer: where the signature ends; among those, where *)
(* a whole record is in the buffer and its comment ends with the file.        *)
Matches(at) == { i \in SigLen..filled : \A k \in 1..SigLen : file[at + i - SigLen + k] = Sig[k] }
Fitting(at) == { i \in Matches(at) : i + Fixed <= filled /\ at + i + Fixed + file[at + i + Fixed] = Len(file) }
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Search ==
    /\ st = "search"
    /\ LET m == Matches(position)
           w == Fitting(position)
           f == IF last = <<>> /\ m # {} THEN <<position + Max(m)>> ELSE last
       IN
       IF w # {} THEN st' = "done" /\ result' = <<position + Max(w)>> /\ UNCHANGED <<position, filled, last>>
       ELSE IF position = 0 \/ position <= Minus(Len(file), Reach)
       THEN st' = "done" /\ result' = f /\ UNCHANGED <<position, filled, last>>
       ELSE st' = "fill" /\ position' = Minus(position, Window - SigLen - Fixed) /\ filled' = 0 /\ last' = f /\ UNCHANGED result
    /\ UNCHANGED file

Next == Fill \/ Search
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == { i \in SigLen..Len(file) : \A k \in 1..SigLen : file[i - SigLen + k] = Sig[k] }
Whole == { i \in Ends : i + Fixed <= Len(file) /\ i + Fixed + file[i + Fixed] = Len(file) }
FoundTheLast == st = "done" /\ result # <<>> => result[1] = IF Whole # {} THEN Max(Whole) ELSE Max(Ends)
GaveUpRightly == st = "done" /\ result = <<>> => \A i \in Ends : i - SigLen < Minus(Len(file), Reach)
(* an archive: a record with a comment of c bytes ends the file; whatever the *)
(* comment holds, unless it ends in a whole record of its own                 *)
ArchiveFound ==
    \A c \in 0..MaxCmt :
        LET s == Len(file) - c - Fixed IN
        (st = "done" /\ s >= SigLen /\ s \in Ends /\ file[s + Fixed] = c /\ \A i \in Whole : i <= s) => result = <<s>>
Terminates == <>(st = "done")
=============================================================================
