------------------------------ MODULE ZipTrace -------------------------------
(* Trace validation: the recorded events of the real code must be a behaviour *)
(* of the specification.  Trace.ndjson holds many scenarios, each between a   *)
(* Begin and an End event.  Every event must be an enabled action (its        *)
(* *Fails set is empty); when it is not, the scenario is rejected with the    *)
(* names of the failed checks, the rest of it is skipped, and validation goes *)
(* on with the next scenario, so that one defect does not hide another.       *)
EXTENDS ZipNum, ZipWriter, ZipForeign, ZipAccess, ZipObs, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.ZV_TRACE)
NLines == Len(Trace)

VARIABLES l,        \* next line
          sc,       \* current scenario
          skip,     \* scenario already rejected
          laid,     \* where things lie in the archive, as an independent parser found
          cid,      \* id of the archive comment
          alen,     \* lengths of the entries access is about
          gv,       \* what a constructed archive means to the readers
          nbad      \* rejected scenarios so far
tvars == <<l, sc, skip, laid, cid, alen, gv, nbad>>
vars == <<wvars, svars, avars, tvars>>

TraceInit ==
    /\ WInit /\ SInit /\ AInit /\ alen = <<>>
    /\ l = 1 /\ sc = 0 /\ skip = FALSE /\ laid = NotLaid /\ cid = "" /\ gv = NotGiven /\ nbad = 0

Reject(ev, f) ==
    /\ PrintT("REJECT " \o ToJson([line |-> l, sc |-> sc, e |-> ev.e, fails |-> f]))
    /\ skip' = TRUE /\ nbad' = nbad + 1
    /\ UNCHANGED <<wvars, svars, avars, alen, sc, laid, cid, gv>>

Same(vs) == UNCHANGED vs

(* Actions of this scenario's event.  Each branch: the set of failed checks,  *)
(* then the action of the specification.                                      *)
Opt(ev, k, d) == IF k \in DOMAIN ev THEN ev[k] ELSE d
NoEnt == [crc |-> ""]

SL == IF gv.on THEN gv.loc
      ELSE [ i \in 1..Len(listed) |-> [listed[i] EXCEPT !.cs = IF laid.on /\ Len(laid.es) = Len(listed) THEN laid.es[i].cs ELSE <<>>] ]

Fails(ev) ==
    CASE ev.e = "New"    -> NewFails(ev.mode)
      [] ev.e = "Whole"  -> WholeFails(ev.ent, ev.res, ev.pos, ev.faults)
      [] ev.e = "Open"   -> OpenFails(ev.ent, ev.res, ev.pos, ev.faults)
      [] ev.e = "Feed"   -> FeedFails(ev.ns, ev.rq, ev.res, ev.all, ev.faults)
      [] ev.e = "CloseE" -> CloseEFails(ev.ent, ev.res, ev.pos, ev.faults)
      [] ev.e = "Drop"   -> DropFails(ev.pos)
      [] ev.e = "Finish" -> FinishFails(ev.res, ev.pos, ev.cl, ev.faults)
      [] ev.e = "Laid"   -> {}
      [] ev.e = "Raw"    -> RawFails(ev, listed, dead, ev.cmtlen, cid)
                            \cup (IF ev.end.ok THEN ModeFails(ev) ELSE {})
                            \cup (IF Opt(ev, "strict", FALSE) /\ ev.end.ok /\ Len(ev.loc) = Len(listed) /\ KnownDescriptor(ev, listed)
                                  THEN {"layout: descriptor of a ZIP64 entry holds 32-bit markers, not the sizes"} ELSE {})
      [] ev.e = "Given"  -> {}
      [] ev.e = "View"   -> IF gv.on /\ gv.want # {}
                            THEN Checks({ <<"view (" \o ev.kind \o "): archive must be refused, not " \o ev.res, ev.res \in gv.want>> })
                            ELSE ViewFails(ev, listed, laid, cid) \cup (IF gv.on /\ ev.res = "ok" /\ ev.n = Len(listed) THEN ExtrasFails(ev, gv) ELSE {})
      [] ev.e = "Same"   -> Checks({ <<"same: " \o ev.what, ev.a = ev.b>> })
      [] ev.e = "SNew"   -> {}
      [] ev.e = "SNext"  -> SNextFails(SL, gv.tail, ev.res, Opt(ev, "with", FALSE), Opt(ev, "ent", NoEnt))
      [] ev.e = "SRead"  -> SReadFails(SL, ev.n, ev.good, ev.eof, ev.res)
      [] ev.e = "SChecked" -> SCheckedFails(SL, ev.n, ev.good, ev.res)
      [] ev.e = "SDone"  -> SDoneFails(SL, ev.res)
      [] ev.e = "SSkip"  -> SSkipFails(ev.res)
      [] ev.e = "SInner" -> SInnerFails
      [] ev.e = "ANew"   -> {}
      [] ev.e = "AOpen"  -> AOpenFails(alen, ev.h, ev.i, ev.res)
      [] ev.e = "ARead"  -> AReadFails(alen, ev.h, ev.n, ev.m, ev.good, ev.res)
      [] ev.e = "ADrop"  -> ADropFails(ev.h)
      [] ev.e = "AMove"  -> {}
      [] ev.e = "Obs"    -> ObsFails(ev)
      [] ev.e = "End"    -> {}
      [] ev.e \in {"Panic", "Hang", "Died"} -> { ev.e \o ": " \o ev.why }
      [] OTHER -> { "event not known to the specification" }

Main(ev) ==
    CASE ev.e = "New"    -> New(ev.mode) /\ Same(<<svars, laid, cid, gv>>)
      [] ev.e = "Whole"  -> Whole(ev.ent, ev.res, ev.pos, ev.faults) /\ Same(<<svars, laid, cid, gv>>)
      [] ev.e = "Open"   -> Open(ev.ent, ev.pre, ev.res, ev.pos, ev.faults) /\ Same(<<svars, laid, cid, gv>>)
      [] ev.e = "Feed"   -> Feed(ev.ns, ev.rq, ev.res, ev.all, ev.faults) /\ Same(<<svars, laid, cid, gv>>)
      [] ev.e = "CloseE" -> CloseE(ev.ent, ev.res, ev.pos, ev.faults) /\ Same(<<svars, laid, cid, gv>>)
      [] ev.e = "Drop"   -> Drop(ev.pos) /\ Same(<<svars, laid, cid, gv>>)
      [] ev.e = "Finish" -> Finish(ev.res, ev.pos, ev.cl, ev.faults) /\ cid' = ev.cid /\ Same(<<svars, laid, gv>>)
      [] ev.e = "Laid"   -> laid' = [on |-> TRUE, es |-> ev.es, z64 |-> ev.z64] /\ Same(<<wvars, svars, cid, gv>>)
      [] ev.e = "Given"  -> /\ gv' = Given(ev) /\ listed' = Given(ev).dir /\ cid' = ev.cid
                            /\ laid' = LET d == Given(ev).dir IN [on |-> TRUE, z64 |-> ev.z64.has, es |-> [ i \in 1..Len(d) |-> [cs |-> d[i].cs, hs |-> d[i].hs, ho |-> d[i].at] ]]
                            /\ Same(<<svars, mode, pos, open, dead, fin>>)
      [] ev.e = "SNew"   -> SNew /\ Same(<<wvars, laid, cid, gv>>)
      [] ev.e = "SNext"  -> SNext(SL, gv.tail, ev.res, Opt(ev, "with", FALSE), Opt(ev, "ent", NoEnt)) /\ Same(<<wvars, laid, cid, gv>>)
      [] ev.e = "SRead"  -> SRead(SL, ev.n, ev.good, ev.eof, ev.res) /\ Same(<<wvars, laid, cid, gv>>)
      [] ev.e = "SChecked" -> SChecked(SL, ev.n, ev.good, ev.res) /\ Same(<<wvars, laid, cid, gv>>)
      [] ev.e = "SDone"  -> SDone(SL, ev.res) /\ Same(<<wvars, laid, cid, gv>>)
      [] ev.e = "SSkip"  -> SSkip(ev.res) /\ Same(<<wvars, laid, cid, gv>>)
      [] ev.e = "SInner" -> SInner /\ Same(<<wvars, laid, cid, gv>>)
      [] OTHER -> Same(<<wvars, svars, laid, cid, gv>>)

Rest == <<wvars, svars, laid, cid, gv>>
Act(ev) ==
    CASE ev.e = "ANew"  -> acc' = <<>> /\ alen' = ev.lens /\ Same(Rest)
      [] ev.e = "AOpen" -> AOpen(alen, ev.h, ev.i, ev.res) /\ Same(<<alen, Rest>>)
      [] ev.e = "ARead" -> ARead(alen, ev.h, ev.n, ev.m, ev.good, ev.res) /\ Same(<<alen, Rest>>)
      [] ev.e = "ADrop" -> ADrop(ev.h) /\ Same(<<alen, Rest>>)
      [] ev.e = "AMove" -> AMove /\ Same(<<alen, Rest>>)
      [] OTHER -> Main(ev) /\ Same(<<acc, alen>>)

TraceNext ==
    /\ l <= NLines
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.e = "Begin" THEN
            /\ sc' = ev.sc /\ skip' = FALSE /\ laid' = NotLaid /\ cid' = "" /\ gv' = NotGiven /\ acc' = <<>> /\ alen' = <<>>
            /\ mode' = "none" /\ pos' = Zero /\ listed' = <<>> /\ open' = <<>> /\ dead' = FALSE /\ fin' = "no"
            /\ sidx' = 0 /\ sst' = "none" /\ sgot' = Zero /\ seof' = FALSE /\ scrc' = ""
            /\ nbad' = nbad
       ELSE IF skip THEN UNCHANGED <<wvars, svars, avars, alen, sc, skip, laid, cid, gv, nbad>>
       ELSE LET f == Fails(ev) IN
            IF f # {} THEN Reject(ev, f)
            ELSE Act(ev) /\ UNCHANGED <<sc, skip, nbad>>

TraceSpec == TraceInit /\ [][TraceNext]_vars

(* Every line was consumed (one state per line plus the initial state).       *)
TraceAccepted ==
    /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(NLines))
    /\ TLCGet("stats").diameter - 1 = NLines
=============================================================================
