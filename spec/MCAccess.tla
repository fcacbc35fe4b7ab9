------------------------------ MODULE MCAccess -------------------------------
(* Design check of entry access (C12): entry readers as positions in a tape   *)
(* of cells, composed with the abstract handles of ZipAccess.                 *)
(*   Kind "seek"   one shared position, one live reader at a time (the borrow *)
(*                 checker's rule), every opening seeks anew;                 *)
(*   Kind "own"    every reader has a position of its own (mem, fs, clones),  *)
(*                 any number live.                                           *)
(* Opening an entry goes to the offset in the directory, reads the LOCAL      *)
(* header, and steps over the local name and extra area, whose length may     *)
(* differ from the directory's.  Openings may fail part-way or be cancelled.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kind, Sizes, MaxOps

PlusN(a, b) == a + b
LeN(a, b) == a <= b
IdN(n) == n
VARIABLES acc
INSTANCE ZipAccess WITH Add <- PlusN, Le <- LeN, V <- IdN, Max32 <- 60, Max16 <- 60, MaxLen <- 60,
    LFH <- 30, CDH <- 46, EOCD <- 22, Z64R <- 56, Z64L <- 20, DD16 <- 16, DD24 <- 24

(* entry i: dead cells before it, a header, x cells of name and extra, data   *)
Entries == [gap : {0, 1}, x : {0, 2}, n : Sizes]
Cells(e, i) == [ k \in 1..e.gap |-> <<"dead", 0, 0>> ] \o <<<<"hdr", i, 0>>>> \o [ k \in 1..e.x |-> <<"extra", i, 0>> ] \o [ k \in 1..e.n |-> <<"data", i, k>> ]
RECURSIVE Tape(_, _)
Tape(es, i) == IF i > Len(es) THEN <<<<"cd", 0, 0>>>> ELSE Cells(es[i], i) \o Tape(es, i + 1)
RECURSIVE At(_, _)
At(es, i) == IF i = 1 THEN es[1].gap ELSE At(es, i - 1) - es[i-1].gap + Len(Cells(es[i - 1], i - 1)) + es[i].gap

VARIABLES ents, shared,     \* shared: position of the common source ("seek")
          cur,              \* cur[h] = [pos, lim]: own position and length limit
          nops, bad
vars == <<acc, ents, shared, cur, nops, bad>>
T == Tape(ents, 1)
Lens == [ i \in 1..Len(ents) |-> ents[i].n ]
Live(h) == h \in 1..Len(acc) /\ acc[h].live
Pos(h) == IF Kind = "seek" THEN shared ELSE cur[h].pos

Init == ents \in UNION { [1..n -> Entries] : n \in 1..2 } /\ AInit /\ shared = 0 /\ cur = <<>> /\ nops = 0 /\ bad = {}
Step == nops < MaxOps /\ nops' = nops + 1

Open == \E i \in 0..Len(ents) :       \* i = Len(ents): out of range
    /\ Step /\ (Kind = "seek" => \A h \in 1..Len(acc) : ~acc[h].live)
    /\ LET h == Len(acc) + 1 IN
       IF i = Len(ents)
       THEN /\ bad' = bad \cup AOpenFails(Lens, h, i, "EntryIndexOutOfBounds") /\ AOpen(Lens, h, i, "EntryIndexOutOfBounds")
            /\ UNCHANGED <<ents, shared, cur>>
       ELSE LET at == At(ents, i + 1)                        \* the directory's offset
                ok == T[at + 1] = <<"hdr", i + 1, 0>>
                q == at + 1 + ents[i + 1].x IN               \* after the local header and what trails it
            /\ bad' = bad \cup (IF ok THEN AOpenFails(Lens, h, i, "ok") ELSE {"no header at the offset"})
            /\ AOpen(Lens, h, i, "ok")
            /\ cur' = Append(cur, [pos |-> q, lim |-> ents[i + 1].n]) /\ shared' = q
            /\ UNCHANGED ents

(* An opening whose future is dropped leaves the shared position anywhere, as *)
(* does the owner of the source, who can reach it through inner_mut().        *)
Moved == \E q \in 0..Len(T) :
    /\ Kind = "seek" /\ Step /\ \A h \in 1..Len(acc) : ~acc[h].live
    /\ shared' = q /\ AMove /\ UNCHANGED <<ents, cur, bad>>

Read == \E h \in 1..Len(acc), m \in 1..2 :
    /\ Live(h) /\ Step
    /\ LET room == IF cur[h].lim < m THEN cur[h].lim ELSE m
           q == Pos(h) IN
       \E n \in (IF room = 0 THEN {0} ELSE 1..room) :
         LET good == \A k \in 1..n : q + k <= Len(T) /\ T[q + k] = <<"data", acc[h].i + 1, acc[h].got + k>> IN
         /\ bad' = bad \cup AReadFails(Lens, h, n, m, good, "ok")
         /\ acc' = [acc EXCEPT ![h].got = @ + n, ![h].eof = (n = 0)]
         /\ cur' = [cur EXCEPT ![h] = [pos |-> q + n, lim |-> @.lim - n]]
         /\ shared' = IF Kind = "seek" THEN q + n ELSE shared
    /\ UNCHANGED ents

Drop == \E h \in 1..Len(acc) : Live(h) /\ Step /\ ADrop(h) /\ UNCHANGED <<ents, shared, cur, bad>>

Next == Open \/ Moved \/ Read \/ Drop
Spec == Init /\ [][Next]_vars

Independent == bad = {}
=============================================================================
