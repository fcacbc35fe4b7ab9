//! Families about reading: constructed archives, checked reads, schedules, hostile bytes, truncation, source errors,
//! independent entry readers, locating the end record.
use crate::alloc;
use crate::exec::*;
use crate::fams::{emit, emits, rt, strs};
use crate::foreign;
use crate::io::*;
use crate::rawzip;
use crate::util::*;
use crate::views::*;
use crate::writer;
use async_zip::base::read::{mem, seek, stream};
use futures_lite::io::{AsyncRead, AsyncReadExt, BufReader};
use serde_json::{json, Value};
use std::pin::Pin;

/// foreign: what the readers make of a constructed archive.
pub fn foreign_fam(case: &Value, seed: u64, idx: u64) {
    let f = foreign::make(case, seed, idx);
    emit(foreign::facts(&f));
    let mut r = Rng::new(seed, idx, 91);
    for v in strs(case, "views") {
        match v.as_str() {
            "mem" => emit(mem_view(&f.built.bytes, &mut r)),
            "seek" => emit(seek_view(&f.built.bytes, Sched::from_json(&case["rsched"]), &mut r)),
            "fs" => emit(fs_view(&f.built.bytes, &mut r, rt())),
            "stream" => emits(stream_walk(&f.built.bytes, Sched::from_json(&case["rsched"]), &strs(case, "plan"), &f.plain, &mut r, None)),
            x => panic!("harness: view {x}"),
        }
    }
}

// ------------------------------------------------------------------------------------------------ checked reads (C05)

struct Outcome {
    res: String,
    io: bool,
    ret: u64,
    out: Vec<u8>,
    pre: usize,
    all: Vec<u8>,
}
const FRONT: &[u8] = b"front:";
async fn checked_on<R: futures_lite::io::AsyncBufRead + Unpin>(rd: &mut async_zip::base::read::ZipEntryReader<'_, R, async_zip::base::read::WithEntry<'_>>, api: &str, pre: &str, len: usize, r: &mut Rng) -> Outcome {
    let mut all = vec![];
    let goal = match pre {
        "none" => 0,
        "one" => 1.min(len),
        "some" => r.below(len as u64 + 1) as usize,
        "but1" => len.saturating_sub(1),
        "all" => len,
        x => panic!("harness: pre {x}"),
    };
    let mut buf = vec![0u8; 100_000];
    while all.len() < goal {
        let k = (goal - all.len()).min(r.pick(&[1, 3, 100, 4096, if len > 70_000 { 100_000 } else { 2 }]));
        match rd.read(&mut buf[..k]).await {
            Ok(0) => break,
            Ok(n) => all.extend_from_slice(&buf[..n]),
            Err(e) => return Outcome { res: crate::io::ioname(&e), io: true, ret: 0, out: vec![], pre: all.len(), all },
        }
    }
    let pre = all.len();
    let (x, out) = if api == "string" {
        // read_to_string_checked takes an empty buffer (futures-lite asserts it)
        let mut o = String::new();
        let x = rd.read_to_string_checked(&mut o).await;
        let mut v = FRONT.to_vec();
        v.extend_from_slice(o.as_bytes());
        (x, v)
    } else {
        let mut o = FRONT.to_vec();
        let x = rd.read_to_end_checked(&mut o).await;
        (x, o)
    };
    if out.starts_with(FRONT) {
        all.extend_from_slice(&out[FRONT.len()..]);
    }
    let io = matches!(x, Err(async_zip::error::ZipError::UpstreamReadError(_)));
    Outcome { res: zres(&x), io, ret: *x.as_ref().unwrap_or(&0) as u64, out, pre, all }
}
pub fn checked(case: &Value, seed: u64, idx: u64) {
    let mut c = case.clone();
    c["end"] = json!({});
    let mut f = foreign::make(&c, seed, idx);
    let mut r = Rng::new(seed, idx, 92);
    // damage to the stored bytes of entry 0
    let span = f.built.spans.iter().find(|s| s.rec == "lfh" && s.i == 0 && s.field == "data").cloned();
    if let Some(sp) = span {
        match s(case, "dmg") {
            "" => (),
            "flip" => {
                let k = sp.off + r.below(sp.len as u64) as usize;
                f.built.bytes[k] ^= 1 << r.below(8);
            }
            "last" => f.built.bytes[sp.off + sp.len - 1] ^= 1 << r.below(8),
            "first" => f.built.bytes[sp.off] ^= 1 << r.below(8),
            "swap" => {
                let (a, b) = (sp.off + r.below(sp.len as u64) as usize, sp.off + r.below(sp.len as u64) as usize);
                f.built.bytes.swap(a, b);
            }
            x => panic!("harness: dmg {x}"),
        }
        f.es[0].data = f.built.bytes[sp.off..sp.off + sp.len].to_vec();
    }
    let dec = crate::codec::decompress(f.es[0].method, &f.es[0].data);
    let data = dec.clone().unwrap_or_default();
    let (api, pre) = (s(case, "api"), s(case, "pre"));
    let which = s(case, "reader");
    let mut rec = f.es[0].crc;
    let sched = Sched::from_json(&case["rsched"]);
    let bytes = f.built.bytes.clone();
    let o = run(async {
        match which {
            "mem" => {
                let z = mem::ZipFileReader::new(bytes).await.map_err(|e| errname(&e))?;
                let mut rd = z.reader_with_entry(0).await.map_err(|e| errname(&e))?;
                Ok::<_, String>(checked_on(&mut rd, api, pre, data.len(), &mut r).await)
            }
            "seek" => {
                let mut z = seek::ZipFileReader::new(Src::new(bytes, sched)).await.map_err(|e| errname(&e))?;
                let mut rd = z.reader_with_entry(0).await.map_err(|e| errname(&e))?;
                Ok(checked_on(&mut rd, api, pre, data.len(), &mut r).await)
            }
            "stream" => {
                rec = f.es[0].lcrc.unwrap_or(f.es[0].crc);
                let z = stream::ZipFileReader::new(Src::new(bytes, sched));
                let mut rd = z.next_with_entry().await.map_err(|e| errname(&e))?.ok_or("none".to_string())?;
                Ok(checked_on(rd.reader_mut(), api, pre, data.len(), &mut r).await)
            }
            x => panic!("harness: reader {x}"),
        }
    });
    match o {
        Err(e) => emit(json!({"e": "Obs", "fam": "checked", "api": api, "res": format!("open:{e}"), "io": false, "rec": "", "all": "", "dec": true, "utf8": true, "kept": false, "good": false, "ret": limbs(0), "rest": limbs(0)})),
        Ok(o) => {
            let rest = data[..].get(o.pre..).unwrap_or(&[]);
            let good = o.out[..].get(FRONT.len()..) == Some(rest);
            emit(json!({"e": "Obs", "fam": "checked", "api": api, "res": o.res, "io": o.io, "rec": hx32(rec), "all": hx32(crc32(&data)), "dec": dec.is_ok(),
                "utf8": std::str::from_utf8(rest).is_ok(), "kept": o.out.starts_with(FRONT), "good": good, "ret": limbs(o.ret), "rest": limbs(rest.len() as u64)}));
            // what was delivered so far is a prefix of the data in any case
            emit(json!({"e": "Same", "what": "delivered bytes are a prefix of the data", "a": data.starts_with(&o.all) || dec.is_err(), "b": true}));
        }
    }
}

/// hash: compute_hash at end of file, for reads split in every way.
pub fn hash(case: &Value, seed: u64, idx: u64) {
    let mut c = case.clone();
    c["end"] = json!({});
    let f = foreign::make(&c, seed, idx);
    let mut r = Rng::new(seed, idx, 90);
    let bytes = f.built.bytes.clone();
    async fn go<R: futures_lite::io::AsyncBufRead + Unpin, E>(rd: &mut async_zip::base::read::ZipEntryReader<'_, R, E>, r: &mut Rng) -> (Vec<u8>, u32, String) {
        let mut o = vec![];
        let mut buf = vec![0u8; 200_000];
        // some reads ask for more than 64 KiB at once
        let big = r.pick(&[9000usize, 66_000, 200_000]);
        loop {
            let k = r.pick(&[0usize, 1, 2, 100, 2048, 9000, big, big]);
            let x = if r.below(5) == 0 {
                let (a, b) = buf[..k].split_at_mut(k / 2);
                rd.read_vectored(&mut [std::io::IoSliceMut::new(a), std::io::IoSliceMut::new(b)]).await
            } else {
                rd.read(&mut buf[..k]).await
            };
            match x {
                Ok(0) if k > 0 => break,
                Ok(n) => o.extend_from_slice(&buf[..n]),
                Err(e) => return (o, rd.compute_hash(), crate::io::ioname(&e)),
            }
        }
        let h = rd.compute_hash();
        (o, h, "ok".into())
    }
    let (o, h, res) = run(async {
        match s(case, "reader") {
            "mem" => {
                let z = mem::ZipFileReader::new(bytes).await.unwrap();
                let mut rd = z.reader_without_entry(0).await.unwrap();
                go(&mut rd, &mut r).await
            }
            "seek" => {
                let mut z = seek::ZipFileReader::new(Src::new(bytes, Sched::free())).await.unwrap();
                let mut rd = z.reader_with_entry(0).await.unwrap();
                go(&mut rd, &mut r).await
            }
            _ => {
                let z = stream::ZipFileReader::new(Src::new(bytes, Sched::free()));
                let mut rd = z.next_without_entry().await.unwrap().unwrap();
                go(rd.reader_mut(), &mut r).await
            }
        }
    });
    emit(json!({"e": "Obs", "fam": "hash", "got": hx32(h), "want": hx32(crc32(&o)), "res": res, "all": o == f.plain[0]}));
}

// ------------------------------------------------------------------------------------------------ hostile bytes (C06)

pub fn extreme(cls: &str, f: &rawzip::Built, r: &mut Rng) -> u64 {
    let len = f.bytes.len() as u64;
    match cls {
        "0" => 0,
        "1" => 1,
        "max" => u64::MAX,
        "max-1" => u64::MAX - 1,
        "max-3" => u64::MAX - 3,
        "max-4" => u64::MAX - 4,
        "max-21" => u64::MAX - 21,
        "half" => 0x8000_8000_8000_8000,
        "half-1" => 0x7fff_7fff_7fff_7fff,
        "imax" => 0x7fff_ffff_ffff_ffff,
        "imin" => 0x8000_0000_0000_0000,
        "m32" => 0xffff_ffff,
        "m32+1" => 0x1_0000_0000,
        "i32" => 0x7fff_ffff,
        "m16" => 0xffff,
        "m16-1" => 0xfffe,
        "len" => len,
        "len-1" => len - 1,
        "len-4" => len.saturating_sub(4),
        "len+1" => len + 1,
        "cdo" => f.cdo,
        "cdo+1" => f.cdo + 1,
        "eocd" => f.eocd,
        "rnd" => r.next(),
        "big" => 1 << 40,
        "mid" => 1 << 24,
        x => panic!("harness: value {x}"),
    }
}
/// Applies one abstract mutation of the case to the bytes.
pub fn mutate(v: &mut Vec<u8>, m: &Value, f: &rawzip::Built, r: &mut Rng) {
    match s(m, "how") {
        "field" => {
            let spans: Vec<_> = f.spans.iter().filter(|x| x.rec == s(m, "rec") && x.field == s(m, "field")).collect();
            if spans.is_empty() {
                return;
            }
            let sp = match s(m, "which") { "last" => spans[spans.len() - 1], _ => spans[0] };
            let at = n(m, "at") as usize;
            if at >= sp.len {
                return;
            }
            let w = (sp.len - at).min(8);
            if sp.off + at + w > v.len() {
                return;
            }
            let x = extreme(s(m, "val"), f, r).to_le_bytes();
            v[sp.off + at..sp.off + at + w].copy_from_slice(&x[..w]);
        }
        "cut" => v.truncate(r.below(v.len() as u64 + 1) as usize),
        "flips" => {
            for _ in 0..n(m, "k") {
                let sp = &f.spans[r.below(f.spans.len() as u64) as usize];
                let k = sp.off + r.below(sp.len as u64) as usize;
                if k < v.len() {
                    v[k] = if r.below(2) == 0 { r.pick(&[0, 0xff, 0x7f, 0x80]) } else { v[k] ^ (1 << r.below(8)) };
                }
            }
        }
        "dup" | "del" if v.is_empty() => (),
        "dup" => {
            let a = r.below(v.len() as u64) as usize;
            let b = a + r.below((v.len() - a) as u64 + 1) as usize;
            let part = v[a..b].to_vec();
            let at = r.below(v.len() as u64 + 1) as usize;
            v.splice(at..at, part);
        }
        "del" => {
            let a = r.below(v.len() as u64) as usize;
            let b = (a + r.below(40) as usize).min(v.len());
            v.drain(a..b);
        }
        "noise" => {
            let k = r.pick(&[0usize, 1, 3, 4, 21, 22, 23, 100, 2047, 2048, 2049, 5000, 70000]);
            *v = r.bytes(k);
            let sigs: [&[u8]; 6] = [b"PK\x03\x04", b"PK\x01\x02", b"PK\x05\x06", b"PK\x07\x08", b"PK\x06\x06", b"PK\x06\x07"];
            for _ in 0..k / 40 {
                let at = r.below(k as u64 - 3) as usize;
                v[at..at + 4].copy_from_slice(r.pick(&sigs));
            }
        }
        "zeros" => *v = vec![0; r.pick(&[1usize, 22, 66000])],
        x => panic!("harness: mutation {x}"),
    }
}
/// Keeps mutated method fields away from codecs whose own headers may ask for memory (not this crate's business).
fn tame(v: &mut [u8], f: &rawzip::Built) {
    for sp in f.spans.iter().filter(|x| x.field == "method") {
        if sp.off + 2 <= v.len() && [14, 93, 95].contains(&v[sp.off]) && v[sp.off + 1] == 0 {
            v[sp.off] = 8;
        }
    }
}
fn drain_cap<R: AsyncRead + Unpin>(rd: &mut R, cap: usize) -> (usize, String) {
    let mut buf = vec![0u8; 16384];
    let mut k = 0;
    loop {
        match run(rd.read(&mut buf)) {
            Ok(0) => return (k, "ok".into()),
            Ok(n) => k += n,
            Err(e) => return (k, crate::io::ioname(&e)),
        }
        if k >= cap {
            return (k, "capped".into());
        }
    }
}
pub fn hostile(case: &Value, seed: u64, idx: u64) {
    let f = foreign::make(case, seed, idx);
    let mut r = Rng::new(seed, idx, 93);
    let mut v = f.built.bytes.clone();
    for m in arr(case, "muts") {
        mutate(&mut v, m, &f.built, &mut r);
    }
    tame(&mut v, &f.built);
    probe(&v, &mut r);
}
/// Inputs that are no archive: a few telling bytes in a filling, at the places where the readers' windows begin and end.
pub fn bytes(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 931);
    let toks: Vec<u8> = arr(case, "toks").iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let mut lens = vec![toks.len(), 21, 22, 23, 46, 2047, 2048, 2049, 2052, 4092, 4093, 5000];
    if b(case, "long") {
        lens.extend([65557, 65558, 70000]);
    }
    for len in lens {
        if len < toks.len() {
            continue;
        }
        let mut places = vec![0, len - toks.len()];
        for w in [2048usize, 2048 + 2044, 2048 + 2 * 2044, 22] {
            if len >= w {
                places.extend([len - w, (len - w).saturating_sub(1), (len - w).saturating_sub(2)]);
            }
        }
        places.retain(|x| x + toks.len() <= len);
        places.sort();
        places.dedup();
        for at in places {
            let mut v = match s(case, "fill") {
                "zero" => vec![0u8; len],
                "ff" => vec![255; len],
                _ => r.bytes(len),
            };
            v[at..at + toks.len()].copy_from_slice(&toks);
            probe(&v, &mut r);
        }
    }
}
/// All readers on these bytes: what they return, what they allocate, how long they take.
fn probe(v: &[u8], r: &mut Rng) {
    let limit = (64i64 << 20) + 16 * v.len() as i64 + (64 << 20);
    for which in ["mem", "seek", "stream"] {
        let mut src = Src::new(v.to_vec(), if r.below(3) == 0 { Sched::new(vec![Step::N(700), Step::Pend, Step::N(3000)]) } else { Sched::free() });
        src.ops.set(0);
        let ops = src.ops.clone();
        let data = v.to_vec();
        let ((res, out), peak) = alloc::metered(limit, move || {
            let mut out = 0usize;
            let res = match which {
                "mem" => match run(mem::ZipFileReader::new(data)) {
                    Err(e) => errname(&e),
                    Ok(z) => {
                        for i in 0..z.file().entries().len().min(50) {
                            let e = &z.file().entries()[i];
                            let _ = (e.last_modification_date().year(), e.dir(), e.unix_permissions(), e.header_size(), e.header_offset(), e.filename().as_str().is_ok(), e.comment().as_str().is_ok());
                            if let Ok(mut rd) = run(z.reader_without_entry(i)) {
                                out += drain_cap(&mut rd, 1 << 20).0;
                            }
                        }
                        "ok".into()
                    }
                },
                "seek" => match run(seek::ZipFileReader::new(src)) {
                    Err(e) => errname(&e),
                    Ok(mut z) => {
                        for i in 0..z.file().entries().len().min(50) {
                            if let Ok(mut rd) = run(z.reader_with_entry(i)) {
                                out += drain_cap(&mut rd, 1 << 20).0;
                            }
                        }
                        "ok".into()
                    }
                },
                _ => {
                    let mut z = stream::ZipFileReader::new(src);
                    let mut i = 0;
                    loop {
                        match run(z.next_with_entry()) {
                            Err(e) => break errname(&e),
                            Ok(None) => break "none".into(),
                            Ok(Some(mut rd)) => {
                                i += 1;
                                if i % 2 == 1 {
                                    out += drain_cap(rd.reader_mut(), 1 << 20).0;
                                }
                                match run(rd.skip()) {
                                    Ok(b) => z = b,
                                    Err(e) => break errname(&e),
                                }
                            }
                        }
                    }
                }
            };
            (res, out)
        });
        emit(json!({"e": "Obs", "fam": "hostile", "reader": which, "res": res, "peak": peak / 1024, "len": v.len() / 1024 + 1, "bytes": v.len(), "out": out / 1024 + 1, "ops": ops.get()}));
    }
}

// ------------------------------------------------------------------------------------------------ source schedules (C07)

/// Everything a reader shows, reduced to what must not depend on the source (partial data before an error may).
fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => {
            if m.contains_key("api") && m.get("res").and_then(|x| x.as_str()) != Some("ok") {
                for k in ["id", "n", "after", "crc"] {
                    m.remove(k);
                }
            }
            if m.get("e").and_then(|x| x.as_str()) == Some("SRead") && m.get("res").and_then(|x| x.as_str()) != Some("ok") {
                for k in ["n", "eof"] {
                    m.remove(k);
                }
            }
            if m.get("e").and_then(|x| x.as_str()) == Some("SChecked") && m.get("res").and_then(|x| x.as_str()) != Some("ok") {
                for k in ["n", "good"] {
                    m.remove(k);
                }
            }
            // a decoder's own error kind on damaged data is the codec's business: that it failed is what counts
            let reading = m.contains_key("api") || matches!(m.get("e").and_then(|x| x.as_str()), Some("SRead" | "SChecked" | "SSkip" | "SDone"));
            if reading && m.get("res").and_then(|x| x.as_str()).is_some_and(|x| x.starts_with("Io:")) {
                m.insert("res".into(), json!("Io"));
            }
            for (_, x) in m.iter_mut() {
                strip(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(strip),
        _ => (),
    }
}
pub fn source(case: &Value, seed: u64, idx: u64) -> (Vec<u8>, Vec<Vec<u8>>, Option<rawzip::Built>) {
    if case.get("ops").is_some() {
        let w = writer::program(case, seed, idx, Sched::free(), &mut |e, op, _| {
            if s(op, "plain") == "yes" {
                e.data = std::rc::Rc::new(e.data.iter().map(|x| if *x == b'P' { b'Q' } else { *x }).collect());
            }
        });
        assert!(w.ok, "writing the source archive failed: {:?}", w.ev.last());
        let t = w.ents.iter().map(|e| e.0.data.to_vec()).collect();
        (w.sink.bytes(), t, None)
    } else {
        let f = foreign::make(case, seed, idx);
        (f.built.bytes.clone(), f.plain.clone(), Some(f.built))
    }
}
pub fn sched(case: &Value, seed: u64, idx: u64) {
    let (mut v, truth, built) = source(case, seed, idx);
    let mut r = Rng::new(seed, idx, 94);
    if let Some(b) = &built {
        for m in arr(case, "muts") {
            mutate(&mut v, m, b, &mut r);
        }
        tame(&mut v, b);
    }
    if let Some(k) = case.get("cut").and_then(|x| x.as_u64()) {
        let keep = v.len() * k as usize / 100;
        v.truncate(keep);
    }
    let sc = Sched::from_json(&case["rsched"]);
    let fp = |mut x: Value| {
        strip(&mut x);
        if std::env::var("ZV_DEBUG").is_ok() {
            eprintln!("{x}");
        }
        id(x.to_string().as_bytes())
    };
    let seed2 = r.next();
    let mk = || Rng::new(seed2, 5, 5);
    let short = |x: &Value| s(x, "res").to_string();
    let views = strs(case, "views");
    if views.iter().any(|x| x == "seek") {
        let a = seek_view(&v, Sched::free(), &mut mk());
        let b = seek_view(&v, sc.clone(), &mut mk());
        emit(json!({"e": "Same", "what": format!("seek reader: outcome ({} / {})", short(&a), short(&b)), "a": short(&a), "b": short(&b)}));
        emit(json!({"e": "Same", "what": "seek reader: everything it shows", "a": fp(a.clone()), "b": fp(b)}));
        for cap in [1usize, 7, 30, 2048, 8192] {
            if cap == 1 && v.len() > 20000 {
                continue;
            }
            let c = seek_view_on(BufReader::with_capacity(cap, Src::new(v.clone(), sc.clone())), "seek", &mut mk());
            emit(json!({"e": "Same", "what": format!("seek reader: everything it shows through a buffer of {cap}"), "a": fp(a.clone()), "b": fp(c)}));
        }
    }
    if views.iter().any(|x| x == "stream") {
        let plan = strs(case, "plan");
        let a = json!(stream_walk(&v, Sched::free(), &plan, &truth, &mut mk(), None));
        let b = json!(stream_walk(&v, sc.clone(), &plan, &truth, &mut mk(), None));
        emit(json!({"e": "Same", "what": "stream reader: everything it shows", "a": fp(a.clone()), "b": fp(b)}));
        for cap in [1usize, 2, 31, 8192] {
            if cap <= 2 && v.len() > 20000 {
                continue;
            }
            let c = json!(stream_walk_on(BufReader::with_capacity(cap, Src::new(v.clone(), sc.clone())), &plan, &truth, &mut mk()));
            emit(json!({"e": "Same", "what": format!("stream reader: everything it shows through a buffer of {cap}"), "a": fp(a.clone()), "b": fp(c)}));
        }
    }
    if views.iter().any(|x| x == "tokio") {
        use tokio_util::compat::FuturesAsyncReadCompatExt;
        let a = seek_view(&v, Sched::free(), &mut mk());
        let src = Src::new(v.clone(), sc.clone());
        let t = run(seek::ZipFileReader::with_tokio(tokio::io::BufReader::new(FuturesAsyncReadCompatExt::compat(src.clone()))));
        let b = view_opened(t, "seek", &mut mk());
        emit(json!({"e": "Same", "what": "tokio seek reader: everything it shows", "a": fp(a), "b": fp(b)}));
        let plan = strs(case, "plan");
        let a = json!(stream_walk(&v, Sched::free(), &plan, &truth, &mut mk(), None));
        let c = json!(stream_walk_z(stream::ZipFileReader::with_tokio(tokio::io::BufReader::new(FuturesAsyncReadCompatExt::compat(src))), &plan, &truth, &mut mk(), &|r| r));
        emit(json!({"e": "Same", "what": "tokio stream reader: everything it shows", "a": fp(a), "b": fp(c)}));
    }
}

// ------------------------------------------------------------------------------------------------ truncation and source errors (C18)

fn positions(v: &Vec<u8>, clen: u64) -> (Vec<Value>, u64, Vec<(u64, u64)>) {
    let raw = rawzip::parse(v, clen, &rawzip::RawOpts { data: false, max: 100_000 });
    let mut es = vec![];
    let mut ranges = vec![];
    let cdo = {
        let co = unlimbs(&raw["end"]["co"]);
        if co == rawzip::M32 { unlimbs(&raw["z64"]["rco"]) } else { co }
    };
    let locs = arr(&raw, "loc");
    for (i, l) in locs.iter().enumerate() {
        let dend = unlimbs(&l["dend"]);
        let doff = unlimbs(&l["doff"]);
        let end = if i + 1 < locs.len() { unlimbs(&locs[i + 1]["off"]) } else { cdo };
        es.push(json!({"hend": doff, "dend": dend, "end": end}));
        ranges.push((doff, dend));
    }
    (es, cdo, ranges)
}
/// Bytes, contents, and per entry whether a descriptor follows and whether it is Stored.
fn cut_source(case: &Value, seed: u64, idx: u64) -> (Vec<u8>, Vec<Vec<u8>>, Vec<(bool, bool)>, u64) {
    if case.get("ops").is_none() {
        let f = foreign::make(case, seed, idx);
        let kinds = f.es.iter().map(|e| (!e.dd.is_empty(), e.method == 0)).collect();
        return (f.built.bytes.clone(), f.plain.clone(), kinds, f.end.comment.len() as u64);
    }
    let w = writer::program(case, seed, idx, Sched::free(), &mut |e, _, i| {
        // nothing in names, comments or data that looks like a record
        e.data = std::rc::Rc::new(e.data.iter().map(|x| if *x == b'P' { b'Q' } else { *x }).collect());
        if e.name.bytes.windows(2).any(|x| x == b"PK") {
            e.name = crate::model::Text::u(&format!("plain{i}"));
        }
        if e.comment.bytes.windows(2).any(|x| x == b"PK") {
            e.comment = crate::model::Text::u("plain");
        }
    });
    assert!(w.ok, "writing the source archive failed");
    (w.sink.bytes(), w.ents.iter().map(|e| e.0.data.to_vec()).collect(), w.ents.iter().map(|e| (e.1, e.0.m == 0)).collect(), w.comment.len() as u64)
}
pub fn cuts(case: &Value, seed: u64, idx: u64) {
    let (v, truth, kinds, clen) = cut_source(case, seed, idx);
    if v.windows(4).filter(|x| *x == b"PK\x05\x06").count() != 1 {
        return;
    }
    let (ents, cdo, _) = positions(&v, clen);
    let mut r = Rng::new(seed, idx, 95);
    let stride = n(case, "stride").max(1);
    let mut ks: Vec<usize> = (0..v.len()).step_by(stride as usize).collect();
    // always the places where records begin and end
    for e in &ents {
        for f in ["hend", "dend", "end"] {
            for d in [-5i64, -1, 0, 1, 4, 16] {
                let k = n(e, f) as i64 + d;
                if k >= 0 && (k as usize) < v.len() {
                    ks.push(k as usize);
                }
            }
        }
    }
    ks.extend((v.len().saturating_sub(120)..v.len()).step_by(1));
    ks.extend((0..8).map(|i| (cdo as usize + i).min(v.len() - 1)));
    ks.sort();
    ks.dedup();
    let mut dir = vec![];
    let mut st = vec![];
    let has_stored_dd = kinds.iter().any(|e| e.0 && e.1);
    for k in ks {
        let part = v[..k].to_vec();
        let res = match run(mem::ZipFileReader::new(part.clone())) {
            Ok(_) => "ok".into(),
            Err(e) => errname(&e),
        };
        dir.push(json!({"k": k, "res": res}));
        let res = match run(seek::ZipFileReader::new(Src::new(part.clone(), Sched::new(vec![Step::N(1000)])))) {
            Ok(_) => "ok".into(),
            Err(e) => errname(&e),
        };
        dir.push(json!({"k": k, "res": res}));
        if !has_stored_dd {
            st.push(cut_walk(part, k, &truth, &kinds.iter().map(|e| e.0).collect::<Vec<_>>(), r.below(4)));
        }
    }
    emit(json!({"e": "Obs", "fam": "cutdir", "total": v.len(), "cells": dir}));
    if !has_stored_dd {
        emit(json!({"e": "Obs", "fam": "cutstream", "total": v.len(), "cd": cdo, "ents": ents, "cells": st}));
    }
}
fn cut_walk(part: Vec<u8>, k: usize, truth: &[Vec<u8>], dds: &[bool], how: u64) -> Value {
    let mut rds = vec![];
    let mut z = stream::ZipFileReader::new(Src::new(part, Sched::free()));
    let last = loop {
        let i = rds.len();
        let nx = match run(z.next_with_entry()) {
            Ok(None) => break "none".to_string(),
            Err(e) => break errname(&e),
            Ok(Some(x)) => x,
        };
        let mut rd = nx;
        let want: &[u8] = truth.get(i).map(|x| &x[..]).unwrap_or(&[]);
        let dd = dds.get(i).cloned().unwrap_or(false);
        // checked reads where the header records a CRC; plain reads or skips otherwise
        let (res, good, chk, skipped) = if !dd && how != 3 {
            let mut o = vec![];
            let x = run(rd.reader_mut().read_to_end_checked(&mut o));
            let full = x.is_ok();
            (zres(&x), want.starts_with(&o) && (!full || o.len() == want.len()), true, false)
        } else if how == 2 {
            ("ok".to_string(), true, false, true)
        } else {
            let mut o = vec![];
            let x = run(rd.reader_mut().read_to_end(&mut o));
            (match x { Ok(_) => "ok".into(), Err(e) => crate::io::ioname(&e) }, want.starts_with(&o), false, false)
        };
        let ok = res == "ok";
        if !ok {
            rds.push(json!({"res": res, "good": good, "chk": chk, "dd": dd, "fin": "-"}));
            break res;
        }
        let x = if skipped { run(rd.skip()) } else { run(rd.done()) };
        rds.push(json!({"res": res, "good": good, "chk": chk, "dd": dd, "fin": zres(&x)}));
        match x {
            Ok(b) => z = b,
            Err(e) => break errname(&e),
        }
        if rds.len() > truth.len() + 2 {
            break "runaway".into();
        }
    };
    json!({"k": k, "rd": rds, "last": last})
}
pub fn srcerr(case: &Value, seed: u64, idx: u64) {
    let (v, truth, _) = source(case, seed, idx);
    let mut r = Rng::new(seed, idx, 96);
    let kind = s(case, "kind");
    let stride = n(case, "stride").max(1);
    let scheds = [Sched::free(), Sched::new(vec![Step::N(900), Step::Pend, Step::N(77)])];
    // how many operations a clean run takes
    let total = if kind == "nth" || kind == "nthstream" {
        let src = Src::new(v.clone(), scheds[0].clone());
        let ops = src.ops.clone();
        if kind == "nth" { src_seek(src, &truth); } else { src_stream(src, &truth, None); }
        ops.get()
    } else {
        v.len() as u64
    };
    let start = r.below(stride);
    let mut ks: Vec<u64> = (start..total).step_by(if kind.starts_with("nth") && total < 600 { 1 } else { stride as usize }).collect();
    if !kind.starts_with("nth") {
        // always the places where records begin and end
        for (at, _) in v.windows(4).enumerate().filter(|x| x.1[..2] == *b"PK" && x.1[2] < 9) {
            for d in [-16i64, -12, -4, -1, 0, 1, 4, 8, 12, 16] {
                let k = at as i64 + d;
                if (0..total as i64).contains(&k) {
                    ks.push(k as u64);
                }
            }
        }
        ks.sort();
        ks.dedup();
    }
    for k in ks {
        let mut src = Src::new(v.clone(), scheds[if kind.starts_with("nth") { 0 } else { r.below(2) as usize }].clone());
        match kind {
            "bad" => src.bad_at = Some(k),
            "fail" | "failstream" => src.fail_at = Some(k),
            "nth" | "nthstream" => src.nth = Some(k + 1),
            x => panic!("harness: srcerr {x}"),
        }
        let early = if r.below(4) == 0 { Some(r.below(truth.len().max(1) as u64) as usize) } else { None };
        let calls = if kind.ends_with("stream") { src_stream(src, &truth, early) } else { src_seek(src, &truth) };
        emit(json!({"e": "Obs", "fam": "srcerr", "k": k, "calls": calls}));
    }
}
fn src_seek(src: Src, truth: &[Vec<u8>]) -> Vec<Value> {
    let mut calls = vec![];
    let fl = src.faults.clone();
    let mut f0 = 0;
    let mut push = |call: &str, res: String, good: bool| {
        calls.push(json!({"call": call, "res": res, "good": good, "faults": fl.get() - f0}));
        f0 = fl.get();
    };
    match run(seek::ZipFileReader::new(src)) {
        Err(e) => push("open", errname(&e), true),
        Ok(mut z) => {
            push("open", "ok".into(), z.file().entries().len() == truth.len());
            for i in 0..z.file().entries().len() {
                match run(z.reader_with_entry(i)) {
                    Err(e) => push("entry", errname(&e), true),
                    Ok(mut rd) => {
                        push("entry", "ok".into(), true);
                        let mut o = vec![];
                        let x = run(rd.read_to_end_checked(&mut o));
                        push("read", zres(&x), truth.get(i) == Some(&o));
                    }
                }
            }
        }
    }
    calls
}
// `early`: the entry that is left, with done(), before it has been read
fn src_stream(src: Src, truth: &[Vec<u8>], early: Option<usize>) -> Vec<Value> {
    let mut calls = vec![];
    let fl = src.faults.clone();
    let mut f0 = 0;
    let mut push = |call: &str, res: String, good: bool| {
        calls.push(json!({"call": call, "res": res, "good": good, "faults": fl.get() - f0}));
        f0 = fl.get();
    };
    let mut z = stream::ZipFileReader::new(src);
    let mut i = 0;
    loop {
        match run(z.next_without_entry()) {
            Err(e) => return { push("next", errname(&e), true); calls },
            Ok(None) => return { push("next", "ok".into(), i == truth.len()); calls },
            Ok(Some(mut rd)) => {
                push("next", "ok".into(), true);
                if early == Some(i) && truth.get(i).is_some_and(|x| !x.is_empty()) {
                    let x = run(rd.done());
                    // the entry has data: nothing but a refusal will do
                    match x {
                        Err(async_zip::error::ZipError::EOFNotReached) => push("done", "ok".into(), true),
                        x => push("done", zres(&x), false),
                    }
                    return calls;
                }
                let x = if i % 3 == 2 {
                    run(rd.skip())
                } else {
                    let mut o = vec![];
                    let x = run(rd.reader_mut().read_to_end(&mut o));
                    let bad = x.is_err();
                    push("read", match x { Ok(_) => "ok".into(), Err(e) => crate::io::ioname(&e) }, truth.get(i) == Some(&o));
                    if bad {
                        return calls;
                    }
                    run(rd.done())
                };
                push("leave", zres(&x), true);
                match x {
                    Ok(b) => z = b,
                    Err(_) => return calls,
                }
                i += 1;
                if i > truth.len() + 2 {
                    push("next", "runaway".into(), false);
                    return calls;
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ independent entry readers (C12)

pub fn access(case: &Value, seed: u64, idx: u64) {
    let (v, truth, _) = source(case, seed, idx);
    let mut r = Rng::new(seed, idx, 97);
    emit(json!({"e": "ANew", "lens": truth.iter().map(|t| t.len()).collect::<Vec<_>>()}));
    let ops: Vec<Value> = arr(case, "acts").to_vec();
    match s(case, "on") {
        "mem" => {
            let z: &'static mem::ZipFileReader = Box::leak(Box::new(run(mem::ZipFileReader::new(v.clone())).expect("a well formed archive is refused")));
            let all: Vec<&'static mem::ZipFileReader> = vec![
                z,
                Box::leak(Box::new(z.clone())),
                Box::leak(Box::new(mem::ZipFileReader::from_raw_parts(v, z.file().clone()))),
            ];
            acts(&ops, &truth, &mut r, &mut |i, r| {
                let z = all[r.below(3) as usize];
                if r.below(2) == 0 {
                    run(z.reader_without_entry(i)).map(|x| Box::new(x) as Rd).map_err(|e| errname(&e))
                } else {
                    run(z.reader_with_entry(i)).map(|x| Box::new(x) as Rd).map_err(|e| errname(&e))
                }
            }, &mut |i, r| cancelled(all[r.below(3) as usize].reader_with_entry(i), r), &|f| run(f), false);
        }
        "fs" => {
            let f = scratch(&v);
            let p = f.0.clone();
            let z: &'static async_zip::tokio::read::fs::ZipFileReader = Box::leak(Box::new(rt().block_on(async_zip::tokio::read::fs::ZipFileReader::new(&p)).expect("a well formed archive is refused")));
            let z2: &'static _ = Box::leak(Box::new(async_zip::tokio::read::fs::ZipFileReader::from_raw_parts(&p, z.file().clone())));
            let z3: &'static _ = Box::leak(Box::new(z.clone()));
            let all = [z, z2, z3];
            acts(&ops, &truth, &mut r, &mut |i, r| {
                let z = all[r.below(3) as usize];
                if r.below(2) == 0 {
                    rt().block_on(z.reader_without_entry(i)).map(|x| Box::new(x) as Rd).map_err(|e| errname(&e))
                } else {
                    rt().block_on(z.reader_with_entry(i)).map(|x| Box::new(x) as Rd).map_err(|e| errname(&e))
                }
            }, &mut |i, r| rt().block_on(async { cancelled(all[r.below(3) as usize].reader_without_entry(i), r) }), &|f| rt().block_on(f), false);
        }
        // clones of a seek reader, each consumed by into_entry
        "clones" => {
            let z = run(seek::ZipFileReader::new(Src::new(v, Sched::from_json(&case["rsched"])))).expect("a well formed archive is refused");
            acts(&ops, &truth, &mut r, &mut |i, _| run(z.clone().into_entry(i)).map(|x| Box::new(x) as Rd).map_err(|e| errname(&e)), &mut |i, r| cancelled(z.clone().into_entry(i), r), &|f| run(f), false);
        }
        // one seek reader: opening the next entry ends the previous handle
        "seek" => {
            let z = Box::leak(Box::new(run(seek::ZipFileReader::new(Src::new(v, Sched::from_json(&case["rsched"])))).expect("a well formed archive is refused"))) as *mut seek::ZipFileReader<Src>;
            let p = z;
            acts(&ops, &truth, &mut r, &mut |i, r| {
                // SAFETY: `acts` drops the previous handle before it opens another one (exclusive = true)
                let z: &'static mut seek::ZipFileReader<Src> = unsafe { &mut *z };
                if r.below(2) == 0 {
                    run(z.reader_without_entry(i)).map(|x| Box::new(x) as Rd).map_err(|e| errname(&e))
                } else {
                    run(z.reader_with_entry(i)).map(|x| Box::new(x) as Rd).map_err(|e| errname(&e))
                }
            }, &mut |i, r| {
                // SAFETY: as above
                let z: &'static mut seek::ZipFileReader<Src> = unsafe { &mut *p };
                match r.below(4) {
                    // the owner moves the source
                    0 => {
                        let to = r.below(z.inner_mut().data.len() as u64 + 10);
                        run(futures_lite::io::AsyncSeekExt::seek(z.inner_mut(), std::io::SeekFrom::Start(to))).expect("harness: seek");
                    }
                    // or reads from it
                    1 => {
                        let mut buf = vec![0; 1 + r.below(60) as usize];
                        run(futures_lite::io::AsyncReadExt::read(z.inner_mut(), &mut buf)).expect("harness: read");
                    }
                    // or takes the reader apart and puts it together again
                    2 => {
                        let file = z.file().clone();
                        let src = z.inner_mut().clone();
                        *z = seek::ZipFileReader::from_raw_parts(src, file);
                    }
                    _ => cancelled(z.reader_without_entry(i), r),
                }
            }, &|f| run(f), true);
        }
        "threads" => threads(v, &truth, &mut r, n(case, "rounds").max(1)),
        x => panic!("harness: access on {x}"),
    }
}
type Rd = Box<dyn AsyncRead + Unpin>;
type ReadFut<'a> = Pin<Box<dyn std::future::Future<Output = std::io::Result<usize>> + 'a>>;
fn acts(ops: &[Value], truth: &[Vec<u8>], r: &mut Rng, open: &mut dyn FnMut(usize, &mut Rng) -> Result<Rd, String>, disturb: &mut dyn FnMut(usize, &mut Rng), block: &dyn Fn(ReadFut<'_>) -> std::io::Result<usize>, exclusive: bool) {
    let mut hs: Vec<Option<(Rd, usize, usize)>> = vec![];
    for op in ops {
        match s(op, "a") {
            "open" => {
                let i = n(op, "i") as usize;
                if exclusive {
                    for (h, x) in hs.iter_mut().enumerate() {
                        if x.take().is_some() {
                            emit(json!({"e": "ADrop", "h": h + 1}));
                        }
                    }
                }
                let x = open(i, r);
                let res = match &x { Ok(_) => "ok".to_string(), Err(e) => e.clone() };
                emit(json!({"e": "AOpen", "h": hs.len() + 1, "i": i, "res": res}));
                if let Ok(rd) = x {
                    hs.push(Some((rd, i, 0)));
                }
            }
            "read" => {
                let live: Vec<usize> = (0..hs.len()).filter(|h| hs[*h].is_some()).collect();
                if live.is_empty() {
                    continue;
                }
                // h counts back from the newest live handle
                let h = live[live.len() - 1 - (n(op, "h") as usize).min(live.len() - 1)];
                let (rd, i, got) = hs[h].as_mut().unwrap();
                let want = &truth[*i];
                let left = want.len().saturating_sub(*got);
                let goal = match s(op, "n") { "one" => 1, "half" => left / 2 + 1, _ => usize::MAX };
                let mut k = 0;
                loop {
                    let m = r.pick(&[1usize, 10, 300, 5000]).min(goal - k).max(1);
                    let mut buf = vec![0u8; m];
                    let x = block(Box::pin(async { rd.read(&mut buf).await }));
                    let (nn, res) = match x { Ok(n) => (n, "ok".to_string()), Err(e) => (0, crate::io::ioname(&e)) };
                    let good = nn <= m && want[..].get(*got..*got + nn) == Some(&buf[..nn.min(m)]);
                    emit(json!({"e": "ARead", "h": h + 1, "n": nn, "m": m, "good": good, "res": res}));
                    *got += nn;
                    k += nn;
                    if nn == 0 || k >= goal || res != "ok" {
                        break;
                    }
                }
            }
            "drop" => {
                let live: Vec<usize> = (0..hs.len()).filter(|h| hs[*h].is_some()).collect();
                if live.is_empty() {
                    continue;
                }
                let h = live[live.len() - 1 - (n(op, "h") as usize).min(live.len() - 1)];
                hs[h] = None;
                emit(json!({"e": "ADrop", "h": h + 1}));
            }
            // the source is left anywhere: moved by its owner, or by an opening that is given up
            "move" => {
                if exclusive {
                    for (h, x) in hs.iter_mut().enumerate() {
                        if x.take().is_some() {
                            emit(json!({"e": "ADrop", "h": h + 1}));
                        }
                    }
                }
                disturb(n(op, "i") as usize, r);
                emit(json!({"e": "AMove"}));
            }
            x => panic!("harness: act {x}"),
        }
    }
}
/// Polls the future a few times and gives it up.
fn cancelled<F: std::future::Future>(f: F, r: &mut Rng) {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..=r.below(6) {
        if f.as_mut().poll(&mut cx).is_ready() {
            break;
        }
    }
}
fn threads(v: Vec<u8>, truth: &[Vec<u8>], r: &mut Rng, rounds: u64) {
    let f = scratch(&v);
    let zm = run(mem::ZipFileReader::new(v)).expect("a well formed archive is refused");
    let zf = rt().block_on(async_zip::tokio::read::fs::ZipFileReader::new(&f.0)).expect("a well formed archive is refused");
    let nent = truth.len();
    let mut tasks = vec![];
    for t in 0..6u64 {
        let (zm, zf) = (zm.clone(), zf.clone());
        let mut tr = Rng::new(r.next(), t, 1);
        tasks.push(rt().spawn(async move {
            let mut log: Vec<(usize, String, Vec<u8>, Vec<(usize, usize)>)> = vec![];
            for _ in 0..rounds {
                let i = tr.below(nent as u64 + 1) as usize;
                let mut out = vec![];
                let mut cuts = vec![];
                macro_rules! go {
                    ($z:expr) => {
                        match $z.reader_without_entry(i).await {
                            Err(e) => errname(&e),
                            Ok(mut rd) => {
                                let mut buf = vec![0u8; 3000];
                                loop {
                                    let m = tr.pick(&[1usize, 50, 700, 3000]);
                                    match rd.read(&mut buf[..m]).await {
                                        Ok(n) => {
                                            cuts.push((n, m));
                                            if n == 0 {
                                                break;
                                            }
                                            out.extend_from_slice(&buf[..n]);
                                        }
                                        Err(e) => return vec![(i, crate::io::ioname(&e), out, cuts)],
                                    }
                                    if tr.below(8) == 0 {
                                        tokio::task::yield_now().await;
                                    }
                                }
                                "ok".to_string()
                            }
                        }
                    };
                }
                let res = if tr.below(3) == 0 { go!(zf) } else { go!(zm) };
                log.push((i, res, out, cuts));
            }
            log
        }));
    }
    let mut h = 0;
    for t in tasks {
        let log = match rt().block_on(t) {
            Ok(l) => l,
            Err(e) => std::panic::resume_unwind(e.into_panic()),
        };
        for (i, res, out, cuts) in log {
            emit(json!({"e": "AOpen", "h": h + 1, "i": i, "res": res}));
            if res == "ok" && i < nent {
                h += 1;
                let mut at = 0;
                for (n, m) in cuts {
                    let good = truth[i][..].get(at..at + n) == out[..].get(at..at + n);
                    emit(json!({"e": "ARead", "h": h, "n": n, "m": m, "good": good, "res": "ok"}));
                    at += n;
                }
                emit(json!({"e": "ADrop", "h": h}));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ the end record (C11)

/// find: archives with comments of every length in [from, to), of a given size of what precedes the end record.
pub fn find(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 98);
    let (from, to, step) = (n(case, "from"), n(case, "to"), n(case, "step").max(1));
    let nents = n(case, "n") as usize;
    let es: Vec<rawzip::FEntry> = (0..nents)
        .map(|i| {
            let k = r.pick(&[0usize, 5, 300, 2000, 5000]);
            let mut d = r.bytes(k);
            if b(case, "decoy") && k > 60 {
                d[10..14].copy_from_slice(b"PK\x05\x06");
                d[40..44].copy_from_slice(b"PK\x06\x07");
                let e = d.len();
                d[e - 3..].copy_from_slice(b"PK\x05");
            }
            rawzip::FEntry::plain(format!("n{i}").as_bytes(), 0, &d)
        })
        .collect();
    let z64 = b(case, "z64").then(rawzip::FZ64::default);
    let mut cells = vec![];
    let mut clen = from;
    while clen < to {
        // comments made of signature fragments that never complete one
        let dense = r.below(2) == 0;
        let mut c: Vec<u8> = (0..clen).map(|_| if dense { r.pick(b"PK\x05\x06PK") } else { r.next() as u8 }).collect();
        for i in 0..c.len().saturating_sub(1) {
            // no two bytes "05 06" in a row, so no signature inside; a lone tail of one is fine
            if c[i] == 5 && c[i + 1] == 6 {
                c[i + 1] = b'K';
            }
        }
        if b(case, "sigs") {
            signatures(&mut r, &mut c);
        }
        let end = rawzip::FEnd { comment: c.clone(), z64: z64.clone(), ..Default::default() };
        let bt = rawzip::build(&es, &end);
        let mut push = |which: &str, res: String, n: usize, cmt: Vec<u8>| {
            cells.push(json!({"why": format!("{clen} bytes, {which}"), "clen": clen, "res": res, "n": n, "wn": nents, "cl": cmt.len(), "good": cmt == c}));
        };
        if r.below(4) == 0 {
            match run(seek::ZipFileReader::new(BufReader::with_capacity(r.pick(&[64, 2048, 4096, 8192]), Src::new(bt.bytes.clone(), Sched::free())))) {
                Ok(z) => push("seek", "ok".into(), z.file().entries().len(), z.file().comment().as_bytes().to_vec()),
                Err(e) => push("seek", errname(&e), 0, vec![]),
            }
        } else {
            match run(mem::ZipFileReader::new(bt.bytes)) {
                Ok(z) => push("mem", "ok".into(), z.file().entries().len(), z.file().comment().as_bytes().to_vec()),
                Err(e) => push("mem", errname(&e), 0, vec![]),
            }
        }
        clen += step;
    }
    emit(json!({"e": "Obs", "fam": "find", "cells": cells}));
}
/// Puts end record signatures into a comment, whole records among them, but none whose own comment ends with it.
pub fn signatures(r: &mut Rng, c: &mut Vec<u8>) {
    let n = c.len();
    if n < 4 {
        return;
    }
    let mut put = |c: &mut Vec<u8>, at: usize, left: Option<u16>| {
        if at + 4 <= n {
            c[at..at + 4].copy_from_slice(b"PK\x05\x06");
        }
        if let (Some(l), true) = (left, at + 22 <= n) {
            c[at + 20..at + 22].copy_from_slice(&l.to_le_bytes());
        }
    };
    match r.below(4) {
        0 => put(c, n - 4, None),
        1 => put(c, 0, None),
        2 => (0..n / 4).for_each(|i| put(c, 4 * i, None)),
        _ => {
            for _ in 0..1 + r.below(6) {
                let at = r.below(n as u64 - 3) as usize;
                // a record that would end one byte early or late, or nowhere near
                let d = r.pick(&[0i64, 1, -1, 22, 40000]);
                let l = if d == 0 { None } else { Some((n as i64 - at as i64 - 22 + d).rem_euclid(65536) as u16) };
                put(c, at, l)
            }
        }
    }
    let end = c.len();
    for at in 0..end.saturating_sub(21) {
        if &c[at..at + 4] == b"PK\x05\x06" && at + 22 + u16::from_le_bytes([c[at + 20], c[at + 21]]) as usize == end {
            c[at] = b'p';
        }
    }
}
/// noend: inputs without an end record, of every length class, and with one too far from the end.
pub fn noend(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 99);
    let mut cells = vec![];
    for l in arr(case, "lens") {
        let l = l.as_u64().unwrap() as usize;
        let dense = b(case, "dense");
        let mut v: Vec<u8> = (0..l).map(|_| if dense { r.pick(b"PK\x05\x06") } else { r.next() as u8 }).collect();
        for i in 0..v.len().saturating_sub(1) {
            if v[i] == 5 && v[i + 1] == 6 {
                v[i + 1] = b'P';
            }
        }
        let res = match run(mem::ZipFileReader::new(v.clone())) { Ok(_) => "ok".into(), Err(e) => errname(&e) };
        cells.push(res);
        let res = match run(seek::ZipFileReader::new(Src::new(v, Sched::new(vec![Step::N(500), Step::Pend])))) { Ok(_) => "ok".into(), Err(e) => errname(&e) };
        cells.push(res);
    }
    emit(json!({"e": "Obs", "fam": "noend", "cells": cells}));
}
