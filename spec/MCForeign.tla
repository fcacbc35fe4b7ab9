------------------------------ MODULE MCForeign ------------------------------
(* Design check of reading archives made by others (C16, C17): the order in   *)
(* which this crate meets the records of an archive and what it does with     *)
(* each, as an algorithm, against what ZipForeign says such an archive means. *)
(* TLC explores every combination, within the sets below, of end records with *)
(* and without ZIP64, counts and disk numbers that agree or not, entries      *)
(* whose fields are direct or deferred, and one flaw per record.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxEntries, Rich

PlusN(a, b) == a + b
LeN(a, b) == a <= b
IdN(n) == n
Max32 == 9
Max16 == 5
VARIABLES sidx, sst, sgot, seof, scrc
INSTANCE ZipForeign WITH Add <- PlusN, Le <- LeN, V <- IdN, Max32 <- Max32, Max16 <- Max16, MaxLen <- 60,
    LFH <- 30, CDH <- 46, EOCD <- 22, Z64R <- 56, Z64L <- 20, DD16 <- 16, DD24 <- 24

(* A field: its true value and whether it is deferred; what does not fit is.  *)
FieldsOf == { f \in [v : {1, 9, 12}, d : BOOLEAN] : f.v >= Max32 => f.d }
Few == { [v |-> 1, d |-> FALSE], [v |-> 12, d |-> TRUE] }
Flaws == {"no", "sig", "method", "over", "pshort", "cshort"}
Entry(u, c, o, fl) ==
    [ csig |-> fl # "sig", m |-> IF fl = "method" THEN 77 ELSE 8,
      cx |-> [over |-> fl = "over", pshort |-> fl = "pshort", cshort |-> fl = "cshort",
              z |-> (IF u.d THEN <<u.v>> ELSE <<>>) \o (IF c.d THEN <<c.v>> ELSE <<>>) \o (IF o.d THEN <<o.v>> ELSE <<>>)],
      u32 |-> IF u.d THEN Max32 ELSE u.v, c32 |-> IF c.d THEN Max32 ELSE c.v, o32 |-> IF o.d THEN Max32 ELSE o.v,
      tu |-> u.v, tc |-> c.v, to |-> o.v ]
RichEntries == { Entry(u, c, o, fl) : u \in FieldsOf, c \in FieldsOf, o \in FieldsOf, fl \in Flaws }
PoorEntries == { Entry(u, u, u, fl) : u \in Few, fl \in Flaws }
Dirs == (IF Rich THEN [1..1 -> RichEntries] ELSE {}) \cup UNION { [1..n -> PoorEntries] : n \in 0..MaxEntries }

(* End records: h: ZIP64 records present; each value direct or deferred.      *)
Ends(n) == { e \in [ h : BOOLEAN, dn : BOOLEAN, dd : BOOLEAN, dk : BOOLEAN, off : {0, 1}, other : {0, 1}, disk : {0, 1}, cdd : {0, 1} ] :
               (~e.h => ~e.dn /\ ~e.dd /\ ~e.dk) }
Archive(es, e) ==
    LET n == Len(es) + e.off          \* off = 1: claims one more than there are
        nd == n + e.other             \* other = 1: per-disk differs from total
    IN  [ found |-> TRUE, ents |-> es,
          end |-> [ disk |-> IF e.dk THEN Max16 ELSE e.disk, cdd |-> IF e.dk THEN Max16 ELSE e.cdd,
                    nt |-> IF e.dn THEN Max16 ELSE n, nd |-> IF e.dn THEN Max16 ELSE nd,
                    cs |-> IF e.dd THEN Max32 ELSE 2, co |-> IF e.dd THEN Max32 ELSE 3 ],
          z64 |-> IF e.h THEN [ has |-> TRUE, rdisk |-> e.disk, rcdd |-> e.cdd, rnt |-> n, rnd |-> nd, rcs |-> 2, rco |-> 3 ]
                  ELSE [ has |-> FALSE, rdisk |-> 0, rcdd |-> 0, rnt |-> 0, rnd |-> 0, rcs |-> 0, rco |-> 0 ] ]
NoEnd(es) == [ Archive(es, [h |-> FALSE, dn |-> FALSE, dd |-> FALSE, dk |-> FALSE, off |-> 0, other |-> 0, disk |-> 0, cdd |-> 0]) EXCEPT !.found = FALSE ]

VARIABLES g, pc, comb, todo, k, out, res
sv == <<sidx, sst, sgot, seof, scrc>>
cv == <<g, pc, comb, todo, k, out, res>>
vars == <<sv, cv>>

Init ==
    /\ \E es \in Dirs : g \in { Archive(es, e) : e \in Ends(Len(es)) } \cup { NoEnd(es) }
    /\ pc = "locate" /\ comb = <<>> /\ todo = 0 /\ k = 1 /\ out = <<>> /\ res = "none" /\ SInit

Goto(l) == pc' = l /\ UNCHANGED <<sv, g, comb, todo, k, out, res>>
Stop(r) == pc' = "done" /\ res' = r /\ UNCHANGED <<sv, g, comb, todo, k, out>>

Locate == pc = "locate" /\ IF g.found THEN Goto("combine") ELSE Stop("UnableToLocateEOCDR")
Pick(v, max, w) == IF v = max THEN w ELSE v
Combine ==
    /\ pc = "combine" /\ pc' = "split"
    /\ comb' = IF ~g.z64.has THEN <<g.end>>
               ELSE <<[ disk |-> Pick(g.end.disk, Max16, g.z64.rdisk), cdd |-> Pick(g.end.cdd, Max16, g.z64.rcdd),
                        nt |-> Pick(g.end.nt, Max16, g.z64.rnt), nd |-> Pick(g.end.nd, Max16, g.z64.rnd),
                        cs |-> Pick(g.end.cs, Max32, g.z64.rcs), co |-> Pick(g.end.co, Max32, g.z64.rco) ]>>
    /\ UNCHANGED <<sv, g, todo, k, out, res>>
Split ==
    /\ pc = "split"
    /\ LET c == comb[1] IN
       IF c.disk # c.cdd \/ c.nt # c.nd THEN Stop("FeatureNotSupported")
       ELSE pc' = "record" /\ todo' = c.nt /\ UNCHANGED <<sv, g, comb, k, out, res>>
Here == g.ents[k]
Record ==
    /\ pc = "record"
    /\ IF todo = 0 THEN Stop("ok")
       ELSE IF k > Len(g.ents) \/ ~Here.csig THEN Stop("UnexpectedHeaderError") ELSE Goto("method")
Method == pc = "method" /\ IF Here.m \notin KnownMethods THEN Stop("CompressionNotSupported") ELSE Goto("extra")
Extra ==
    /\ pc = "extra"
    /\ IF Here.cx.over THEN Stop("InvalidExtraFieldHeader")
       ELSE IF Here.cx.pshort THEN Stop("InfoZipUnicodePathFieldIncomplete")
       ELSE IF Here.cx.cshort THEN Stop("InfoZipUnicodeCommentFieldIncomplete") ELSE Goto("sizes")
Sizes ==
    /\ pc = "sizes"
    /\ LET z == Here.cx.z
           k1 == IF Here.u32 = Max32 /\ Len(z) >= 1 THEN 2 ELSE 1
           k2 == IF Here.c32 = Max32 /\ Len(z) >= k1 THEN k1 + 1 ELSE k1
       IN  out' = Append(out, [ u |-> IF k1 = 2 THEN z[1] ELSE Here.u32, c |-> IF k2 > k1 THEN z[k1] ELSE Here.c32,
                                o |-> IF Here.o32 = Max32 /\ Len(z) >= k2 THEN z[k2] ELSE Here.o32 ])
    /\ todo' = todo - 1 /\ k' = k + 1 /\ pc' = "record" /\ UNCHANGED <<sv, g, comb, res>>
Next == Locate \/ Combine \/ Split \/ Record \/ Method \/ Extra \/ Sizes
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
AsSpecified == pc = "done" =>
    LET want == DirErrors(g) IN
    IF want = {} THEN res = "ok" /\ Len(out) = Listed(g) ELSE res \in want
TrueSizes == pc = "done" /\ res = "ok" =>
    \A j \in 1..Len(out) : out[j] = [u |-> g.ents[j].tu, c |-> g.ents[j].tc, o |-> g.ents[j].to]
DecodingAgrees == \A j \in 1..Len(out) : LET e == g.ents[j] IN out[j] = DecodeSizes(e.u32, e.c32, e.o32, e.cx.z)
Terminates == <>(pc = "done")
=============================================================================
