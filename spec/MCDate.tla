------------------------------- MODULE MCDate --------------------------------
(* Design check of DOS dates (C14): the words as bit patterns, the accessors  *)
(* and setters as mask-and-shift operations, against the fields the format    *)
(* defines (ZipObs).  Words in the chosen ranges, every setter, every value.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Years, Minutes, MaxSet

PlusN(a, b) == a + b
LeN(a, b) == a <= b
IdN(n) == n
INSTANCE ZipObs WITH Add <- PlusN, Le <- LeN, V <- IdN, Max32 <- 60, Max16 <- 60, MaxLen <- 60,
    LFH <- 30, CDH <- 46, EOCD <- 22, Z64R <- 56, Z64L <- 20, DD16 <- 16, DD24 <- 24

(* bits lo..hi of w, in place, and w without them                             *)
Bits(w, lo, hi) == ((w \div 2 ^ lo) % 2 ^ (hi - lo + 1)) * 2 ^ lo
Clear(w, lo, hi) == w - Bits(w, lo, hi)
Set(w, lo, hi, v) == Clear(w, lo, hi) + Bits(v * 2 ^ lo, lo, hi)

VARIABLES date, time, want, nset
vars == <<date, time, want, nset>>

Init == date \in { (y - 1980) * 512 + m * 32 + d : y \in Years, m \in {0, 1, 15}, d \in {0, 31} }
        /\ time \in { h * 2048 + mi * 32 + s : h \in {0, 31}, mi \in {0, 63}, s \in {0, 31} }
        /\ want = Fields(date, time) /\ nset = 0

Year(v) == date' = Set(date, 9, 15, v - 1980) /\ time' = time
Month(v) == date' = Set(date, 5, 8, v) /\ time' = time
Day(v) == date' = Set(date, 0, 4, v) /\ time' = time
Hour(v) == time' = Set(time, 11, 15, v) /\ date' = date
Minute(v) == time' = Set(time, 5, 10, v) /\ date' = date
Second(v) == time' = Set(time, 0, 4, v \div 2) /\ date' = date
Does(f, v) == CASE f = "year" -> Year(v) [] f = "month" -> Month(v) [] f = "day" -> Day(v)
                [] f = "hour" -> Hour(v) [] f = "minute" -> Minute(v) [] f = "second" -> Second(v)
Range(f) == CASE f = "year" -> Years [] f = "month" -> 1..12 [] f = "day" -> 1..31 [] f = "hour" -> 0..23
              [] f = "minute" -> Minutes [] f = "second" -> Minutes
Next == \E f \in {"year", "month", "day", "hour", "minute", "second"} : \E v \in Range(f) :
    /\ nset < MaxSet /\ nset' = nset + 1
    /\ Does(f, v) /\ want' = Apply(want, <<[f |-> f, v |-> v]>>, 1)
Spec == Init /\ [][Next]_vars

(* accessors                                                                  *)
Seen == << 1980 + Bits(date, 9, 15) \div 512, Bits(date, 5, 8) \div 32, Bits(date, 0, 4),
           Bits(time, 11, 15) \div 2048, Bits(time, 5, 10) \div 32, 2 * Bits(time, 0, 4) >>
SeenAsSpecified == Seen = Fields(date, time)
SettersReplace == Seen = want
InWords == date \in 0..65535 /\ time \in 0..65535
Chrono == ToChrono(Seen) # <<>> => Seen[2] \in 1..12 /\ Seen[3] \in 1..31
=============================================================================
