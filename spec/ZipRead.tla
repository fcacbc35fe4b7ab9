------------------------------- MODULE ZipRead -------------------------------
(* What the directory readers (mem, seek, fs) must show of an archive whose   *)
(* truth is `listed`.  A view v is everything the reader's API exposes:       *)
(*   res, n, cmt, ents[i] : name, cmt, m, dt, ia, ea, perm, dir, crc, us, cs, *)
(*   ho, and rd, the results of reading entry i by several entry readers.     *)
EXTENDS ZipLayout

(* A text as an accessor shows it (id, U: is UTF-8, ok: as_str/into_string    *)
(* agree with the bytes and encoding, alt) against the text t that was given. *)
(* Whether a reader reports an alternative equal to the text itself is its    *)
(* own business.                                                              *)
TextFails(what, v, t) ==
    Checks({ <<what \o ": bytes", v.id = t.id>>,
             <<what \o ": encoding", v.U = (t.U \/ t.ascii)>>,
             <<what \o ": as_str consistent", v.ok>>,
             <<what \o ": alternative", IF t.alt # "none" THEN v.alt = t.alt ELSE v.alt \in {"none", t.id}>> })

(* What an entry's reader must deliver.  For entries of archives this crate   *)
(* wrote, t records only crc/us/data (all are right); entries of constructed  *)
(* archives also say whether they can be opened and what their data's own     *)
(* CRC-32 and length are (ZipForeign).                                        *)
OpenRes(t) == F(t, "open", "ok")
DataCrc(t) == F(t, "pcrc", t.crc)
DataLen(t) == F(t, "plen", t.us)
CheckedRes(t) == IF DataCrc(t) = t.crc THEN "ok" ELSE "CRC32CheckError"

(* One complete read of an entry.                                             *)
ReadFails(r, t) ==
    IF r.api = "open" \/ OpenRes(t) # "ok"
    THEN Checks({ <<"view: opening the entry ends in " \o OpenRes(t) \o ", not " \o r.res, r.api = "open" /\ r.res = OpenRes(t)>> })
    ELSE LET want == IF r.api = "checked" THEN CheckedRes(t) ELSE "ok" IN
         Checks({ <<"view: reading entry (" \o r.api \o ") ends in " \o want \o ", not " \o r.res, r.res = want>>,
                  <<"view: data of entry (" \o r.api \o ")", r.res # "ok" \/ r.id = t.data>>,
                  <<"view: number of bytes (" \o r.api \o ")", r.res # "ok" \/ r.n = DataLen(t)>>,
                  <<"view: end of file after the data", r.res # "ok" \/ r.after = 0>>,
                  <<"view: compute_hash", r.res # "ok" \/ r.crc = "-" \/ r.crc = DataCrc(t)>> })

DirFlag(t) == IF t.name.U \/ t.name.ascii THEN (IF t.dir THEN "y" ELSE "n") ELSE "e"

EntryFails(v, t) ==
    TextFails("view: name", v.name, t.name)
    \cup TextFails("view: comment", v.cmt, t.cmt)
    \cup Checks({ <<"view: method", v.m = t.m>>,
                  <<"view: date", v.dt = t.dt>>,
                  <<"view: attributes", v.ia = t.ia /\ v.ea = t.ea>>,
                  <<"view: unix permissions", v.perm = t.perm>>,
                  <<"view: dir()", v.dir = DirFlag(t)>>,
                  <<"view: crc", v.crc = t.crc>>,
                  <<"view: uncompressed size", v.us = t.us>>,
                  <<"view: header offset", F(t, "at", v.ho) = v.ho>> })
    \cup UNION { ReadFails(v.rd[k], t) : k \in 1..Len(v.rd) }

(* la: what is laid down in the archive (la.on: known): la.es[i] = [cs, hs,   *)
(* ho], la.z64.                                                               *)
NotLaid == [on |-> FALSE, es |-> <<>>, z64 |-> FALSE]
ViewFails(v, listed, la, cid) ==
    IF v.res # "ok" THEN {"view (" \o v.kind \o "): archive refused with " \o v.res}
    ELSE IF v.n # Len(listed) THEN {"view (" \o v.kind \o "): number of entries"}
    ELSE UNION { EntryFails(v.ents[i], listed[i]) : i \in 1..v.n }
         \cup Checks({ <<"view: archive comment", v.cmt.id = cid /\ v.cmt.ok>>,
                       <<"view: encoding of the archive comment", v.cmt.U = v.cmt.u8>> })
         \cup IF ~la.on \/ Len(la.es) # v.n THEN {}
              ELSE Checks({ <<"view: compressed sizes", \A i \in 1..v.n : v.ents[i].cs = la.es[i].cs>>,
                            <<"view: header offsets", \A i \in 1..v.n : v.ents[i].ho = la.es[i].ho>>,
                            <<"view: header sizes", \A i \in 1..v.n : v.ents[i].hs = la.es[i].hs>>,
                            <<"view: zip64()", v.z64 = la.z64>> })
=============================================================================
