------------------------------ MODULE ZipWriter ------------------------------
(* The archive writer as a state machine over the abstract state              *)
(*   mode    how ZIP64 is treated: "auto", "no64" (forbidden), "force64"      *)
(*   pos     bytes accepted by the sink so far                                *)
(*   listed  entries that will appear in the directory, in order              *)
(*   open    <<>> or <<[ent, pre, us]>>: the entry being streamed             *)
(*   dead    some bytes in the output belong to no listed entry               *)
(*   fin     "no", "ok" or "failed"                                           *)
(* One action per public call (its return is the linearisation point), each   *)
(* parameterised by what the call was given and what it reported.  The guards *)
(* are sets of named failed checks so that a rejected trace says why.         *)
EXTENDS ZipLayout, SequencesExt

VARIABLES mode, pos, listed, open, dead, fin
wvars == <<mode, pos, listed, open, dead, fin>>

Modes == {"auto", "no64", "force64"}

WInit == mode = "none" /\ pos = Zero /\ listed = <<>> /\ open = <<>> /\ dead = FALSE /\ fin = "no"

---------------------------------------------------------------------------
(* Which calls must and which may be refused.                                *)
NeedsUnicode(t) == ~(t.name.U /\ t.name.alt = "none" /\ t.cmt.U /\ t.cmt.alt = "none")
UniLen(x) == IF x.U /\ x.l > 0 THEN 9 + x.l ELSE 0
ExtraLen(t) == t.xl + IF NeedsUnicode(t) THEN UniLen(t.name) + UniLen(t.cmt) ELSE 0
Z64Slack(md) == IF md = "no64" THEN 0 ELSE 32   \* at most what a ZIP64 field can add to the extra area

MustRefuse(t, md, p, n) ==
    (IF t.name.bl > MaxLen THEN {"FileNameTooLarge"} ELSE {})
    \cup (IF t.cmt.bl > MaxLen THEN {"CommentTooLarge"} ELSE {})
    \cup (IF ExtraLen(t) > MaxLen THEN {"ExtraFieldTooLarge"} ELSE {})
    \cup (IF md = "no64" /\ (Lt(Max32, t.us) \/ Lt(Max32, t.cs) \/ Lt(Max32, p) \/ Lt(Max16, V(n + 1)))
          THEN {"Zip64Needed"} ELSE {})

(* At a marker value itself both readings of "fits" are defensible.           *)
MayRefuse(t, md, p, n) ==
    MustRefuse(t, md, p, n)
    \cup (IF ExtraLen(t) + Z64Slack(md) > MaxLen THEN {"ExtraFieldTooLarge"} ELSE {})
    \cup (IF md = "no64" /\ (t.us = Max32 \/ t.cs = Max32 \/ p = Max32 \/ V(n + 1) = Max16)
          THEN {"Zip64Needed"} ELSE {})

WithAt(t, p) == [ k \in DOMAIN t \cup {"at"} |-> IF k = "at" THEN p ELSE t[k] ]
---------------------------------------------------------------------------
NewFails(m) == Checks({ <<"writer: mode", m \in Modes>> })
New(m) ==
    /\ NewFails(m) = {}
    /\ mode' = m /\ pos' = Zero /\ listed' = <<>> /\ open' = <<>> /\ dead' = FALSE /\ fin' = "no"

(* A call's result against what was met: sink errors surface, refusals are    *)
(* justified, success only if nothing had to be refused.                      *)
ResultFails(what, res, faults, must, may) ==
    IF res = "ok" THEN Checks({ <<what \o ": reported success although the sink failed", faults = 0>>,
                                <<what \o ": accepted what does not fit", must = {}>> })
    ELSE IF res = "cancelled" THEN {}
    ELSE IF faults > 0 THEN Checks({ <<what \o ": sink error reported as such", res = "Io:StorageFull" \/ res \in may>> })
    ELSE Checks({ <<what \o ": refused without reason (" \o res \o ")", res \in may>> })

WholeFails(t, res, p2, faults) ==
    ResultFails("write entry", res, faults, MustRefuse(t, mode, pos, Len(listed)), MayRefuse(t, mode, pos, Len(listed)))
    \cup Checks({ <<"write entry: writer idle", open = <<>> /\ fin = "no">>,
                  <<"write entry: sink only grows", Le(pos, p2)>>,
                  <<"write entry: room for header and name", res # "ok" \/ Le(Add(pos, V(LFH + t.name.bl)), p2)>> })
Whole(t, res, p2, faults) ==
    /\ WholeFails(t, res, p2, faults) = {}
    /\ pos' = p2
    /\ listed' = IF res = "ok" THEN Append(listed, WithAt(t, pos)) ELSE listed
    /\ dead' = (dead \/ (res # "ok" /\ p2 # pos))
    /\ UNCHANGED <<mode, open, fin>>

OpenFails(t, res, p2, faults) ==
    \* for a stream, sizes are not known yet and the comment is not due before close
    LET u == [t EXCEPT !.us = Zero, !.cs = Zero]
        must == MustRefuse(u, mode, Zero, 0) \ {"CommentTooLarge"}
        may  == MayRefuse(t, mode, pos, Len(listed))
    IN  ResultFails("open stream", res, faults, must, may)
        \cup Checks({ <<"open stream: writer idle", open = <<>> /\ fin = "no">>,
                      <<"open stream: sink only grows", Le(pos, p2)>>,
                      <<"open stream: header written", res # "ok" \/ Le(Add(pos, V(LFH + t.name.bl)), p2)>> })
Open(t, pre, res, p2, faults) ==
    /\ OpenFails(t, res, p2, faults) = {}
    /\ pos' = p2
    /\ open' = IF res = "ok" THEN <<[ent |-> t, pre |-> pre, n |-> Zero, at |-> pos]>> ELSE <<>>
    /\ dead' = (dead \/ (res # "ok" /\ p2 # pos))
    /\ UNCHANGED <<mode, listed, fin>>

(* One entry's data arrives in any number of writes: write k was offered      *)
(* rq[k] bytes and accepted ns[k] of them.                                    *)
FeedFails(ns, rq, res, all, faults) ==
    Checks({ <<"stream write: entry open", open # <<>> >>,
             <<"stream write: accepts no more than given", \A k \in 1..Len(ns) : ns[k] <= rq[k]>>,
             <<"stream write: result (" \o res \o ")", res = "ok" \/ (res = "Io:StorageFull" /\ faults > 0)>>,
             <<"stream write: reported success although the sink failed", res # "ok" \/ faults = 0>>,
             <<"stream write: later writes after a failed one", all>>,
             <<"stream write: progress on non-empty data",
                \A k \in 1..Len(ns) : rq[k] = 0 \/ ns[k] > 0 \/ (k = Len(ns) /\ res # "ok")>> })
Feed(ns, rq, res, all, faults) ==
    /\ FeedFails(ns, rq, res, all, faults) = {}
    /\ open' = <<[open[1] EXCEPT !.n = FoldLeft(LAMBDA a, b : Add(a, V(b)), @, ns)]>>
    /\ UNCHANGED <<mode, pos, listed, dead, fin>>

CloseEFails(t, res, p2, faults) ==
    IF open = <<>> THEN {"close entry: none open"}
    ELSE LET o == open[1]
             must == MustRefuse(t, mode, o.at, Len(listed))
             may  == MayRefuse(t, mode, o.at, Len(listed))
         IN  ResultFails("close entry", res, faults, must, may)
             \cup Checks({ <<"close entry: sink only grows", Le(pos, p2)>>,
                           <<"close entry: counted what was accepted",
                               IF o.pre THEN o.n = t.cs ELSE o.n = t.us>> })
CloseE(t, res, p2, faults) ==
    /\ CloseEFails(t, res, p2, faults) = {}
    /\ pos' = p2 /\ open' = <<>>
    /\ listed' = IF res = "ok" THEN Append(listed, WithAt(t, open[1].at)) ELSE listed
    /\ dead' = (dead \/ res # "ok")
    /\ UNCHANGED <<mode, fin>>

DropFails(p2) == Checks({ <<"abandon: entry open", open # <<>> >>, <<"abandon: sink only grows", Le(pos, p2)>> })
Drop(p2) ==
    /\ DropFails(p2) = {}
    /\ pos' = p2 /\ open' = <<>> /\ dead' = TRUE
    /\ UNCHANGED <<mode, listed, fin>>

FinishFails(res, p2, cl, faults) ==
    LET must == (IF cl > MaxLen THEN {"CommentTooLarge"} ELSE {})
                \cup (IF mode = "no64" /\ Lt(Max32, pos) THEN {"Zip64Needed"} ELSE {})
        \* the directory itself may be what no longer fits
        may == must \cup (IF mode = "no64" /\ Le(Max32, p2) THEN {"Zip64Needed"} ELSE {})
    IN  ResultFails("finish", res, faults, must, may)
        \cup Checks({ <<"finish: writer idle", open = <<>> /\ fin = "no">>,
                      <<"finish: sink grows by the end record", res # "ok" \/ Le(Add(pos, V(EOCD + cl)), p2)>> })
Finish(res, p2, cl, faults) ==
    /\ FinishFails(res, p2, cl, faults) = {}
    /\ fin' = IF res = "ok" THEN "ok" ELSE "failed"
    /\ pos' = p2
    /\ UNCHANGED <<mode, listed, open, dead>>

(* n tiny, identical-in-kind entries at once (entry-count limits).            *)
ManyFails(n, okn, res) ==
    LET lim == Max16
    IN Checks({ <<"many: accepted as many as fit",
                   IF mode = "no64" /\ Lt(Max16, V(n)) THEN V(okn) = Max16 \/ V(okn + 1) = Max16 ELSE okn = n>>,
                <<"many: refusal", okn = n \/ res = "Zip64Needed">> })

(* Consequences for an emitted archive in the current state.                  *)
ModeFails(raw) ==
    Checks({ <<"mode: force64 emits the ZIP64 end records", mode # "force64" \/ raw.z64.has>>,
             <<"mode: no64 emits no ZIP64 structure", mode # "no64" \/ ~UsesZip64(raw)>> })
=============================================================================
