//! Executes abstract writer programs on the real writer and records what happened.
use crate::exec::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
use serde_json::{json, Value};
use std::io::IoSlice;

pub struct Written {
    pub ev: Vec<Value>,
    pub ents: Vec<(Ent, bool)>,
    pub sink: Sink,
    pub comment: Vec<u8>,
    pub ok: bool,
    pub dead: bool,
    /// An entry being compressed was flushed: the encoder (async-compression) may then lay down different blocks
    /// depending on how much room it is given, so that only what they decode to is determined.
    pub flushed: bool,
}
fn res<T>(r: &Result<T, async_zip::error::ZipError>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => errname(e),
    }
}
/// All writes of one entry as one event: what was offered, what was accepted, how the last one ended.
pub fn fold(sub: &[Value]) -> Value {
    json!({"e": "Feed", "ns": sub.iter().map(|c| unlimbs(&c["n"])).collect::<Vec<_>>(), "rq": sub.iter().map(|c| unlimbs(&c["req"])).collect::<Vec<_>>(),
           "faults": 0, "res": sub.last().map(|c| s(c, "res")).unwrap_or("ok"), "all": sub.iter().rev().skip(1).all(|c| s(c, "res") == "ok")})
}
pub fn chunks(r: &mut Rng, class: &str, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = match class {
            "one" => left,
            "bytes" if n <= 600 => 1,
            "small" => 1 + r.below(37) as usize,
            "odd" => r.pick(&[1, 2, 3, 5, 1000, 1024, 4095, 4097, 8192, 8193]),
            _ => 1 + r.below(1 + n as u64 / 3) as usize,
        }
        .max(n / 400)
        .min(left);
        v.push(k);
        left -= k;
    }
    v
}
/// Writes `data` into the stream writer in pieces by the given API; returns the bytes actually accepted.
/// A flush that succeeds must have reached the sink, with everything accepted so far if nothing is compressed (`raw`).
fn flush<W: AsyncWrite + Unpin>(w: &mut EntryStreamWriter<'_, W>, sink: &Sink, raw: Option<usize>) -> String {
    let before = sink.st.borrow().flushes;
    // async-compression 0.4 adds another sync marker each time a flush is polled again: a sink that takes less than that
    // between two polls is never done
    sink.floor.set(if raw.is_none() { 4096 } else { 0 });
    let res = run(w.flush());
    sink.floor.set(0);
    match res {
        Err(e) => crate::io::ioname(&e),
        Ok(()) if sink.st.borrow().flushes == before => "flush did not reach the sink".into(),
        Ok(()) if raw.is_some_and(|n| sink.len() < n) => "flush kept data back".into(),
        Ok(()) => "ok".into(),
    }
}
#[allow(clippy::too_many_arguments)]
pub fn feed<W: AsyncWrite + Unpin>(w: &mut EntryStreamWriter<'_, W>, sink: &Sink, raw: bool, r: &mut Rng, data: &[u8], cls: &str, api: &str, ev: &mut Vec<Value>, upto: usize, fl: &mut bool) -> (Vec<u8>, bool) {
    let mut acc = vec![];
    let mut at = 0;
    let start = sink.len();
    let goal = upto.min(data.len());
    let list = chunks(r, cls, goal);
    if r.below(4) == 0 {
        // an empty write is a no-op
        let k = run(w.write(&[]));
        if !matches!(k, Ok(0)) {
            ev.push(json!({"e": "Chunk", "n": limbs(0), "res": format!("empty write returned {k:?}"), "req": limbs(0)}));
            return (acc, false);
        }
    }
    for k in list {
        let piece = &data[at..at + k];
        let (n, rs) = match api {
            "write" => match run(w.write(piece)) {
                Ok(n) => (n, "ok".to_string()),
                Err(e) => (0, crate::io::ioname(&e)),
            },
            // the first attempts are dropped while pending: no byte may count as accepted
            "retry" => {
                let mut out = None;
                for _ in 0..3 {
                    if let Ok(x) = run_limit(w.write(&piece[..(k / 2).max(1)]), 1, true) {
                        out = Some(x);
                        break;
                    }
                }
                match out.unwrap_or_else(|| run(w.write(piece))) {
                    Ok(n) => (n, "ok".to_string()),
                    Err(e) => (0, crate::io::ioname(&e)),
                }
            }
            "vec" => {
                let cut = r.below(k as u64 + 1) as usize;
                let bufs = [IoSlice::new(&piece[..cut]), IoSlice::new(&[]), IoSlice::new(&piece[cut..])];
                match run(w.write_vectored(&bufs)) {
                    Ok(n) => (n, "ok".to_string()),
                    Err(e) => (0, crate::io::ioname(&e)),
                }
            }
            _ => match run(w.write_all(piece)) {
                Ok(()) => (k, "ok".to_string()),
                Err(e) => (0, crate::io::ioname(&e)),
            },
        };
        acc.extend_from_slice(&piece[..n.min(k)]);
        let good = rs == "ok";
        ev.push(json!({"e": "Chunk", "n": limbs(n as u64), "req": limbs(k as u64), "res": rs}));
        if !good || n > k {
            return (acc, false);
        }
        at += n;
        if api == "flush" || api == "all" && r.below(6) == 0 {
            *fl = true;
            let f = flush(w, sink, raw.then_some(start + at));
            if f != "ok" {
                ev.push(json!({"e": "Chunk", "n": limbs(0), "req": limbs(0), "res": f}));
                return (acc, false);
            }
        }
        if n < k && api != "all" {
            // short write: the rest of this piece goes in later pieces
            while at < goal {
                let n2 = match run(w.write(&data[at..goal])) {
                    Ok(n) => n,
                    Err(e) => {
                        ev.push(json!({"e": "Chunk", "n": limbs(0), "req": limbs(1), "res": crate::io::ioname(&e)}));
                        return (acc, false);
                    }
                };
                ev.push(json!({"e": "Chunk", "n": limbs(n2 as u64), "req": limbs((goal - at) as u64), "res": "ok"}));
                acc.extend_from_slice(&data[at..(at + n2).min(goal)]);
                at += n2;
                if n2 == 0 {
                    return (acc, false);
                }
            }
            return (acc, true);
        }
    }
    (acc, true)
}

/// Runs the program `case.ops`. `tune` may adjust each drawn entry (copy scenarios, limits).
pub fn program(case: &Value, seed: u64, idx: u64, sched: Sched, tune: &mut dyn FnMut(&mut Ent, &Value, usize)) -> Written {
    let sink = Sink::new(sched.clone());
    if b(case, "tok") {
        let w = ZipFileWriter::with_tokio(TokSink(sink.clone()));
        return program_on(w, sink, case, seed, idx, sched, tune);
    }
    let w = ZipFileWriter::new(sink.clone());
    program_on(w, sink, case, seed, idx, sched, tune)
}
fn program_on<W: AsyncWrite + Unpin>(mut w: ZipFileWriter<W>, sink: Sink, case: &Value, seed: u64, idx: u64, sched: Sched, tune: &mut dyn FnMut(&mut Ent, &Value, usize)) -> Written {
    let mut r = Rng::new(seed, idx, 1);
    let mode = s(case, "mode");
    let mut ev = vec![json!({"e": "New", "mode": mode})];
    match mode {
        "no64" => w = w.force_no_zip64(),
        "force64" => w = w.force_zip64(),
        _ => (),
    }
    let abs = case.get("absfault").and_then(|x| x.as_u64());
    if let Some(k) = abs {
        *sink.fail_at.borrow_mut() = Some(k as usize);
    }
    let csched = |d: Vec<Step>| if sched.steps.is_empty() { Sched::new(d) } else { sched.clone() };
    let mut ents = vec![];
    let mut dead = false;
    let mut flushed = false;
    for (i, op) in arr(case, "ops").iter().enumerate() {
        let mut er = Rng::new(seed, idx, 1000 + i as u64);
        let mut e = entry(&mut er, op, i);
        crate::copy::tune_limits(&mut e, op, seed ^ idx << 20, i);
        tune(&mut e, op, i);
        let k = s(op, "k");
        let before = sink.len();
        let before_faults = *sink.faults.borrow();
        // fault placement relative to the entry's own output
        let hdr = 30 + e.name.basic().len();
        if s(op, "fault") == "flush" {
            sink.fail_flush.set(true);
        } else if !s(op, "fault").is_empty() {
            let d = match s(op, "fault") {
                "start" => 0,
                "hdr" => 1 + er.below(29) as usize,
                "name" => 30 + er.below(e.name.basic().len() as u64 + 1) as usize,
                "data" => hdr + 20 + er.below(e.data.len() as u64 + 1) as usize,
                "late" => hdr + e.data.len() + er.below(12) as usize,
                x => panic!("harness: fault {x}"),
            };
            *sink.fail_at.borrow_mut() = Some(before + d);
        }
        let pre = k == "P" || k == "Q";
        let fast = er.below(2) == 0;
        let payload: Vec<u8> = match (&e.comp, pre) {
            (Some(c), true) => c.to_vec(),
            // by the crate's own helper, or elsewhere
            (None, true) if e.m != 0 && e.date & 3 == 1 => run(async_zip::base::write::compress(&e.builder(true).build(), &e.data)),
            (None, true) => crate::codec::compress(e.m, &e.data, fast),
            _ => e.data.to_vec(),
        };
        match k {
            "W" | "P" => {
                let mut tr = e.truth(false);
                tr["cs"] = limbs(payload.len() as u64);
                tr["cdata"] = json!(if pre { id(&payload) } else { "any".into() });
                let cancel = n(op, "cancel");
                let out = if cancel > 0 {
                    *sink.sched.borrow_mut() = csched(vec![Step::N(5), Step::Pend, Step::N(400), Step::Pend]);
                    let f = async {
                        if pre { w.write_entry_whole_precompressed(e.builder(true), &payload).await } else { w.write_entry_whole(e.builder(false), &payload).await }
                    };
                    let o = run_limit(f, cancel, true);
                    *sink.sched.borrow_mut() = sched.clone();
                    match o {
                        Ok(x) => res(&x),
                        Err(Stuck::Cancelled) => "cancelled".into(),
                        Err(x) => format!("{x:?}"),
                    }
                } else {
                    let x = run(async {
                        if pre { w.write_entry_whole_precompressed(e.builder(true), &payload).await } else { w.write_entry_whole(e.builder(false), &payload).await }
                    });
                    res(&x)
                };
                ev.push(json!({"e": "Whole", "ent": tr, "pre": pre, "res": out, "pos": limbs(sink.len() as u64), "faults": *sink.faults.borrow() - before_faults}));
                if out == "ok" {
                    ents.push((e, false));
                } else if sink.len() != before {
                    dead = true;
                }
            }
            "S" | "Q" | "A" | "B" => {
                // S stream, Q precompressed stream, A stream abandoned, B precompressed stream abandoned
                let pre = pre || k == "B";
                let payload: Vec<u8> = if k == "B" { crate::codec::compress(e.m, &e.data, true) } else { payload };
                let mut tr = e.truth(true);
                tr["cs"] = limbs(0);
                tr["cdata"] = json!("any");
                let mut sub = vec![];
                let cls = { let c = s(op, "ch"); if c.is_empty() { er.pick(&["one", "small", "odd", "any", "bytes"]) } else { c } };
                let api = { let c = s(op, "api"); if c.is_empty() { er.pick(&["all", "all", "write", "vec"]) } else { c } };
                let opened = run(async { if pre { w.write_entry_stream_precompressed(e.builder(true)).await } else { w.write_entry_stream(e.builder(false)).await } });
                let pos0 = sink.len() as u64;
                match opened {
                    Err(x) => {
                        ev.push(json!({"e": "Open", "ent": tr, "pre": pre, "res": errname(&x), "pos": limbs(pos0), "faults": *sink.faults.borrow() - before_faults}));
                        dead |= sink.len() != before;
                    }
                    Ok(mut sw) => {
                        let of = *sink.faults.borrow() - before_faults;
                        let upto = if k == "A" || k == "B" { er.below(payload.len() as u64 + 1) as usize } else { payload.len() };
                        let mut fl = false;
                        let (acc, fine) = feed(&mut sw, &sink, pre || e.m == 0, &mut er, &payload, cls, api, &mut sub, upto, &mut fl);
                        flushed |= fl && !pre && e.m != 0;
                        let mut e2 = e.clone();
                        if pre {
                            tr["cs"] = limbs(acc.len() as u64);
                            tr["cdata"] = json!(id(&acc));
                        } else {
                            e2.data = std::rc::Rc::new(acc.clone());
                            let t2 = e2.truth(true);
                            for f in ["crc", "us", "data"] {
                                tr[f] = t2[f].clone();
                            }
                            tr["cs"] = limbs(0);
                            tr["cdata"] = json!("any");
                        }
                        ev.push(json!({"e": "Open", "ent": tr, "pre": pre, "res": "ok", "pos": limbs(pos0), "faults": of}));
                        let mut fd = fold(&sub);
                        let f1 = *sink.faults.borrow();
                        fd["faults"] = json!(f1 - before_faults - of);
                        ev.push(fd);
                        if k == "A" || k == "B" || !fine {
                            drop(sw);
                            ev.push(json!({"e": "Drop", "pos": limbs(sink.len() as u64), "faults": f1 - before_faults}));
                            dead = true;
                        } else {
                            let cancel = n(op, "cancel");
                            let out = if cancel > 0 {
                                *sink.sched.borrow_mut() = csched(vec![Step::N(3), Step::Pend]);
                                let o = run_limit(sw.close(), cancel, true);
                                *sink.sched.borrow_mut() = sched.clone();
                                match o {
                                    Ok(x) => res(&x),
                                    Err(Stuck::Cancelled) => "cancelled".into(),
                                    Err(x) => format!("{x:?}"),
                                }
                            } else {
                                res(&run(sw.close()))
                            };
                            ev.push(json!({"e": "CloseE", "ent": tr, "res": out, "pos": limbs(sink.len() as u64), "faults": *sink.faults.borrow() - f1}));
                            if out == "ok" {
                                ents.push((e2, true));
                            } else {
                                dead = true;
                            }
                        }
                    }
                }
            }
            x => panic!("harness: op {x}"),
        }
        if abs.is_none() {
            *sink.fail_at.borrow_mut() = None;
        }
        sink.fail_flush.set(false);
    }
    let comment = match s(case, "cmt") {
        "" | "none" => None,
        "empty" => Some(String::new()),
        "blank" => Some(crate::model::blank(&mut r).into()),
        "short" => Some(format!("comment {}", r.below(100000))),
        "utf8" => Some(format!("Kommentar — 日本 {}", r.below(100000))),
        "odd" => Some(format!("{}{}", crate::model::odd(&mut r, 1), crate::model::odd(&mut r, 2))),
        "rand" => Some((0..r.below(300)).map(|_| crate::model::any_char(&mut r)).collect()),
        "mid" => Some("0123456789".repeat(300 + r.below(400) as usize)),
        "max" => Some("x".repeat(65535)),
        "sig" => Some(format!("{}PK\x05\x06{}PK\x05\x06", "s".repeat(r.below(30) as usize), ".".repeat(r.below(4000) as usize))),
        "toolong" => Some("y".repeat(65536 + r.below(3) as usize * 65000)),
        x => panic!("harness: cmt {x}"),
    };
    let comment = match case.get("cmtn").and_then(|x| x.as_u64()) {
        Some(k) if b(case, "cmtmb") => Some(format!("{}{}", "é".repeat(k as usize / 2), "z".repeat(k as usize % 2))),
        Some(k) => Some((0..k).map(|i| (b'a' + (i % 26) as u8) as char).collect()),
        None => comment,
    };
    if let Some(c) = &comment {
        // the last one counts
        match r.below(6) {
            0 => w.comment("an earlier and longer comment ".repeat(5)),
            1 => w.comment(String::new()),
            _ => (),
        }
        w.comment(c.clone());
    }
    let cb = comment.unwrap_or_default().into_bytes();
    if n(case, "finfault") > 0 {
        *sink.fail_at.borrow_mut() = Some(sink.len() + n(case, "finfault") as usize - 1);
    }
    let f1 = *sink.faults.borrow();
    let fin = run(w.close());
    let out = res(&fin);
    ev.push(json!({"e": "Finish", "res": out, "pos": limbs(sink.len() as u64), "cl": cb.len(), "cid": id(&cb), "faults": *sink.faults.borrow() - f1}));
    let ok = fin.is_ok();
    Written { ev, ents, sink, comment: cb, ok, dead, flushed }
}
