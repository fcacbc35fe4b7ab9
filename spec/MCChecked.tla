------------------------------ MODULE MCChecked ------------------------------
(* Design check of reading an entry's data (C05, C07): the layers             *)
(*     source  >  length limit  >  decoder  >  hasher  >  caller              *)
(* at the level of polls.  The source delivers any part or nothing yet, the   *)
(* caller reads with any room, may drop a read at any poll, and at any point  *)
(* goes over to a checked read of the rest.  The stored bytes may be damaged  *)
(* (one byte changed), and the recorded CRC-32 wrong.                         *)
(* The CRC-32 is modelled as an injection.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxData, Room

Min(a, b) == IF a < b THEN a ELSE b
VARIABLES plain,     \* the entry's data
          kind,      \* "stored", "packed"
          tape,      \* the bytes stored for it, then the next record's
          lim,       \* what the length limit still lets through
          p,         \* consumed from the source
          have,      \* bytes the source has ready (0: nothing yet)
          dbuf,      \* decoded, not yet delivered
          dst,       \* decoder: "run", "ended", "broken"
          hash,      \* what the hasher was fed
          got,       \* everything delivered to the caller (dropped reads included)
          call,      \* <<>> | <<"read", m>> | <<"checked", buffer>>
          rec,       \* the recorded CRC-32
          last       \* <<kind of call, result>>
vars == <<plain, kind, tape, lim, p, have, dbuf, dst, hash, got, call, rec, last>>

Sym == {"x", "y"}
Pack(d) == [ k \in 1..Len(d) |-> <<"k", d[k]>> ] \o <<<<"e", "">>>>
Stored(k, d) == IF k = "stored" THEN [ j \in 1..Len(d) |-> <<"s", d[j]>> ] ELSE Pack(d)
Damage(s) == { s } \cup { [s EXCEPT ![j] = <<"k", v>>] : j \in { j \in 1..Len(s) : s[j][1] # "e" }, v \in Sym } 
             \cup { [s EXCEPT ![j] = <<"!", "">>] : j \in 1..Len(s) }
Good(s, k) == s = Stored(k, plain)

Init ==
    /\ \E n \in 0..MaxData : plain \in [1..n -> Sym]
    /\ kind \in {"stored", "packed"}
    /\ \E s \in Damage(Stored(kind, plain)) : tape = s \o <<<<"next", "">>, <<"next", "">>>>
    /\ lim = Len(Stored(kind, plain)) /\ p = 0 /\ have = 0 /\ dbuf = <<>> /\ dst = "run" /\ hash = <<>> /\ got = <<>>
    /\ call = <<>> /\ rec \in { plain, <<"other">> } /\ last = <<"none", "none">>

(* what a stored cell yields to the caller                                    *)
Byte(c) == IF c[1] \in {"s", "k"} THEN c[2] ELSE "!"
(* The source makes some bytes ready; the limit hides the rest of the tape.   *)
Ready == have = 0 /\ p < Len(tape) /\ \E k \in 1..2 : p + k <= Len(tape) /\ have' = k
         /\ UNCHANGED <<plain, kind, tape, lim, p, dbuf, dst, hash, got, call, rec, last>>
Visible == Min(have, lim)

StartRead == call = <<>> /\ last[1] # "checked" /\ \E m \in 1..Room : call' = <<"read", m>>
             /\ UNCHANGED <<plain, kind, tape, lim, p, have, dbuf, dst, hash, got, rec, last>>
StartChecked == call = <<>> /\ last[1] # "checked" /\ call' = <<"checked", 2>>
             /\ UNCHANGED <<plain, kind, tape, lim, p, have, dbuf, dst, hash, got, rec, last>>

(* Delivering bytes: hashed as delivered.                                     *)
Deliver(d) == got' = got \o d /\ hash' = hash \o d
Returns(res) == IF call[1] = "read" THEN call' = <<>> /\ last' = <<"read", res>> ELSE UNCHANGED <<call, last>>
Finish(res) == call' = <<>> /\ last' = <<call[1], res>>
AtEof == IF call[1] = "read" THEN Finish("eof") ELSE Finish(IF hash = rec THEN "ok" ELSE "CRC32CheckError")

PollStored ==
    /\ call # <<>> /\ kind = "stored"
    /\ IF lim = 0 \/ p = Len(tape) THEN AtEof /\ UNCHANGED <<p, lim, have, hash, got>>
       ELSE /\ have > 0
            /\ \E k \in 1..Min(Visible, call[2]) :
                 /\ Deliver([ j \in 1..k |-> Byte(tape[p + j]) ]) /\ p' = p + k /\ lim' = lim - k /\ have' = have - k
                 /\ Returns("some")
    /\ UNCHANGED <<plain, kind, tape, dbuf, dst, rec>>
(* The decoder consumes cells only as far as it needs and stops at its end.   *)
PollDecode ==
    /\ call # <<>> /\ kind = "packed" /\ dst = "run" /\ dbuf = <<>>
    /\ IF lim = 0 \/ p = Len(tape) THEN dst' = "broken" /\ Finish("Io") /\ UNCHANGED <<p, lim, have, dbuf>>
       ELSE /\ have > 0
            /\ LET c == tape[p + 1] IN
               IF c[1] = "e" THEN dst' = "ended" /\ dbuf' = <<>> /\ p' = p + 1 /\ lim' = lim - 1 /\ have' = have - 1 /\ UNCHANGED <<call, last>>
               ELSE IF c[1] = "k" THEN dbuf' = <<c[2]>> /\ p' = p + 1 /\ lim' = lim - 1 /\ have' = have - 1 /\ UNCHANGED <<dst, call, last>>
               ELSE dst' = "broken" /\ Finish("Io") /\ UNCHANGED <<p, lim, have, dbuf>>
    /\ UNCHANGED <<plain, kind, tape, hash, got, rec>>
PollGive ==
    /\ call # <<>> /\ kind = "packed" /\ dbuf # <<>>
    /\ Deliver(dbuf) /\ dbuf' = <<>> /\ Returns("some")
    /\ UNCHANGED <<plain, kind, tape, lim, p, have, dst, rec>>
PollEnd ==
    /\ call # <<>> /\ kind = "packed" /\ dbuf = <<>> /\ dst \in {"ended", "broken"}
    /\ IF dst = "ended" THEN AtEof ELSE Finish("Io")
    /\ UNCHANGED <<plain, kind, tape, lim, p, have, dbuf, dst, hash, got, rec>>
DropCall == call # <<>> /\ Finish("dropped") /\ UNCHANGED <<plain, kind, tape, lim, p, have, dbuf, dst, hash, got, rec>>

Next == Ready \/ StartRead \/ StartChecked \/ PollStored \/ PollDecode \/ PollGive \/ PollEnd \/ DropCall
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Stor == SubSeq(tape, 1, Len(tape) - 2)
Content == [ j \in 1..Len(SelectSeq(Stor, LAMBDA c : c[1] # "e")) |-> Byte(SelectSeq(Stor, LAMBDA c : c[1] # "e")[j]) ]
HashIsDelivered == hash = got
NeverBeyond == p <= Len(Stor)
OwnPrefix == Len(got) <= Len(Content) /\ got = SubSeq(Content, 1, Len(got))
(* the outcome of a checked read is a function of the input, not of the       *)
(* schedule: success exactly if everything delivered has the recorded CRC-32  *)
Decodes == kind = "stored" \/ \A j \in 1..Len(Stor) : Stor[j][1] = (IF j < Len(Stor) THEN "k" ELSE "e")
CheckedRight == last[1] = "checked" =>
    /\ last[2] = "ok" => got = rec /\ Decodes /\ got = Content
    /\ (last[2] \notin {"ok", "dropped"}) => ~(Decodes /\ Content = rec)
EofOnlyAtEnd == last = <<"read", "eof">> => got = Content /\ Decodes
=============================================================================
