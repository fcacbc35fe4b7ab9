------------------------------ MODULE ZipAccess ------------------------------
(* Entry readers of one opened archive.  acc maps a handle to the entry it    *)
(* reads and how much of it was delivered; handles are independent, so every  *)
(* action touches its own handle only.                                        *)
EXTENDS ZipLayout

VARIABLES acc          \* sequence: acc[h] = [i, got, eof, live]
avars == <<acc>>
AInit == acc = <<>>

AOpenFails(lens, h, i, res) ==
    IF i >= Len(lens) THEN Checks({ <<"access: index out of range refused (" \o res \o ")", res = "EntryIndexOutOfBounds">> })
    ELSE Checks({ <<"access: open (" \o res \o ")", res = "ok">>, <<"access: handle fresh", h = Len(acc) + 1>> })
AOpen(lens, h, i, res) ==
    /\ AOpenFails(lens, h, i, res) = {}
    /\ acc' = IF i >= Len(lens) THEN acc ELSE Append(acc, [i |-> i, got |-> 0, eof |-> FALSE, live |-> TRUE])

(* n bytes asked for with room m > 0; good: they continue the entry's data.   *)
AReadFails(lens, h, n, m, good, res) ==
    IF h \notin 1..Len(acc) \/ ~acc[h].live THEN {"access: handle live"}
    ELSE LET a == acc[h] IN
         Checks({ <<"access: read (" \o res \o ")", res = "ok">>,
                  <<"access: bytes are the entry's own, in order", good>>,
                  <<"access: no more than the entry holds", a.got + n <= lens[a.i + 1]>>,
                  <<"access: end of file exactly at the end", (n = 0) = (a.got = lens[a.i + 1])>>,
                  <<"access: no more than asked for", n <= m>> })
ARead(lens, h, n, m, good, res) ==
    /\ AReadFails(lens, h, n, m, good, res) = {}
    /\ acc' = [acc EXCEPT ![h].got = @ + n, ![h].eof = (n = 0)]

ADropFails(h) == Checks({ <<"access: handle live", h \in 1..Len(acc) /\ acc[h].live>> })
ADrop(h) == ADropFails(h) = {} /\ acc' = [acc EXCEPT ![h].live = FALSE]

(* The source is moved by its owner, or an opening is given up part-way: no   *)
(* handle, opened before or after, is affected.                               *)
AMove == UNCHANGED acc
=============================================================================
