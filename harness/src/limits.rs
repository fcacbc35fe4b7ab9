//! Sizes, offsets, counts and directories around the limits of the classic fields (C04). Data are zeros, kept sparsely.
use crate::exec::run;
use crate::fams::{emit, emits};
use crate::io::*;
use crate::model::*;
use crate::rawzip::{self, M32};
use crate::util::*;
use crate::views::*;
use crate::writer::fold;
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::{Compression, ZipEntryBuilder};
use futures_lite::io::{AsyncReadExt, AsyncWriteExt, BufReader};
use serde_json::{json, Value};
use std::sync::OnceLock;

fn zeros(n: u64) -> &'static [u8] {
    static Z: OnceLock<Vec<u8>> = OnceLock::new();
    // untouched zero pages: costs address space only
    &Z.get_or_init(|| vec![0; (1 << 32) + (1 << 20)])[..n as usize]
}
fn zid(n: u64) -> String {
    if n == 0 { "E".into() } else { format!("Z{n}") }
}
/// "m": 2^32-1, with an optional offset; "e40", "max": far beyond; or a plain number.
fn size(c: &str) -> u64 {
    match c {
        "e33" => 1 << 33,
        "e40" => (1 << 40) + 5,
        "max" => u64::MAX,
        "max-1" => u64::MAX - 1,
        _ if c.starts_with("m+") => M32 + c[2..].parse::<u64>().unwrap(),
        _ if c.starts_with("m-") => M32 - c[2..].parse::<u64>().unwrap(),
        "m" => M32,
        _ => c.parse().expect("harness: size"),
    }
}
struct Op {
    k: String,
    size: u64,
    us: u64,
    lies: bool,
    ent: Ent,
}
fn builder(o: &Op) -> ZipEntryBuilder {
    let b = o.ent.builder(false);
    if o.k == "P" || o.k == "Q" { b.crc32(crc32_zeros(o.size)).uncompressed_size(o.us) } else { b }
}
fn truth(o: &Op) -> Value {
    let pre = o.k == "P" || o.k == "Q";
    let mut t = o.ent.truth(o.k == "S" || o.k == "Q");
    t["us"] = limbs(o.us);
    t["cs"] = limbs(if o.k == "W" || o.k == "P" || o.k == "Q" { o.size } else { 0 });
    t["crc"] = json!(hx32(crc32_zeros(o.size)));
    t["pcrc"] = t["crc"].clone();
    t["plen"] = limbs(o.size);
    t["data"] = json!(zid(o.size));
    t["cdata"] = json!(if pre { zid(o.size) } else { "any".into() });
    t["real"] = json!(!o.lies);
    t
}
fn new(sink: Sparse, mode: &str) -> ZipFileWriter<Sparse> {
    let w = ZipFileWriter::new(sink);
    match mode {
        "no64" => w.force_no_zip64(),
        "force64" => w.force_zip64(),
        _ => w,
    }
}
/// Bytes an entry of this kind takes besides its data.
fn overhead(o: &Op, mode: &str) -> u64 {
    let s = Sparse::default();
    let mut w = new(s.clone(), mode);
    let small = Op { k: o.k.clone(), size: 0, us: 0, lies: false, ent: o.ent.clone() };
    run(async {
        match o.k.as_str() {
            "W" => drop(w.write_entry_whole(builder(&small), &[]).await),
            "P" => drop(w.write_entry_whole_precompressed(builder(&small), &[]).await),
            "S" => drop(w.write_entry_stream(builder(&small)).await.unwrap().close().await),
            _ => drop(w.write_entry_stream_precompressed(builder(&small)).await.unwrap().close().await),
        }
    });
    s.size()
}
pub fn limits(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 5);
    let mode = s(case, "mode");
    let sink = Sparse::default();
    let mut w = new(sink.clone(), mode);
    let mut ev = vec![json!({"e": "New", "mode": mode})];
    let mut done: Vec<(u64, bool, String)> = vec![];
    let mut dead = false;
    for (i, op) in arr(case, "ops").iter().enumerate() {
        let mut ent = Ent::simple(&format!("entry-{i}"), 0, vec![]);
        if i > 0 && r.below(2) == 0 {
            // any texts, date and attributes, and sometimes other extra fields
            ent = entry(&mut r, &json!({"m": "stored", "sz": "zero"}), i);
            if r.below(2) == 0 {
                let k = 20 + r.below(200) as usize;
                let (b, xs) = crate::copy::with_extra(&mut r, k);
                ent.base = Some(b);
                ent.xs = xs;
            }
        }
        // names, comments and extra fields as long as they may be
        crate::copy::tune_limits(&mut ent, op, seed ^ idx, i);
        let mut o = Op { k: s(op, "k").into(), size: 0, us: 0, lies: false, ent };
        o.size = if !s(op, "upto").is_empty() {
            // so long that what comes next starts exactly there
            size(s(op, "upto")).saturating_sub(sink.size()).saturating_sub(overhead(&o, mode))
        } else if s(op, "sz").is_empty() {
            r.below(200)
        } else {
            size(s(op, "sz"))
        };
        o.us = o.size;
        if !s(op, "us").is_empty() {
            o.us = size(s(op, "us"));
            o.lies = o.us != o.size;
        }
        let before = sink.size();
        let pre = o.k == "P" || o.k == "Q";
        let mut t = truth(&o);
        let data = zeros(o.size);
        if o.k == "W" || o.k == "P" {
            let x = run(async { if pre { w.write_entry_whole_precompressed(builder(&o), data).await } else { w.write_entry_whole(builder(&o), data).await } });
            ev.push(json!({"e": "Whole", "ent": t, "pre": pre, "res": zres(&x), "pos": limbs(sink.size()), "faults": 0}));
            if x.is_ok() { done.push((o.size, false, o.k.clone())) } else { dead |= sink.size() != before }
        } else {
            let x = run(async { if pre { w.write_entry_stream_precompressed(builder(&o)).await } else { w.write_entry_stream(builder(&o)).await } });
            let pos0 = limbs(sink.size());
            t["cs"] = limbs(if pre { o.size } else { 0 });
            match x {
                Err(e) => {
                    ev.push(json!({"e": "Open", "ent": t, "pre": pre, "res": errname(&e), "pos": pos0, "faults": 0}));
                    dead |= sink.size() != before;
                }
                Ok(mut sw) => {
                    ev.push(json!({"e": "Open", "ent": t, "pre": pre, "res": "ok", "pos": pos0, "faults": 0}));
                    let mut sub = vec![];
                    let mut at = 0u64;
                    let step = r.pick(&[64u64 << 20, (64 << 20) - 1, 1 << 29, (1 << 30) + 7]);
                    while at < o.size {
                        let k = step.min(o.size - at);
                        let x = run(sw.write_all(&data[at as usize..(at + k) as usize]));
                        sub.push(json!({"n": limbs(k), "req": limbs(k), "res": match x { Ok(()) => "ok".to_string(), Err(e) => crate::io::ioname(&e) }}));
                        at += k;
                    }
                    ev.push(fold(&sub));
                    let x = run(sw.close());
                    // sizes are known now
                    t["cs"] = limbs(o.size);
                    ev.push(json!({"e": "CloseE", "ent": t, "res": zres(&x), "pos": limbs(sink.size()), "faults": 0}));
                    if x.is_ok() { done.push((o.size, true, o.k.clone())) } else { dead = true }
                }
            }
        }
    }
    let cl = n(case, "cmtn") as usize;
    if cl > 0 {
        w.comment("c".repeat(cl));
    }
    let cid = id("c".repeat(cl).as_bytes());
    let fin = run(w.close());
    ev.push(json!({"e": "Finish", "res": zres(&fin), "pos": limbs(sink.size()), "cl": cl, "cid": cid, "faults": 0}));
    emits(ev);
    if fin.is_err() {
        return;
    }
    let raw0 = rawzip::parse(&sink, cl as u64, &rawzip::RawOpts { data: false, max: 1000 });
    emit(crate::fams::laid_of(&raw0));
    let mut raw = rawzip::parse(&sink, cl as u64, &rawzip::RawOpts { data: true, max: 1000 });
    raw["e"] = json!("Raw");
    raw["cmtlen"] = json!(cl);
    emit(raw);
    emit(big_view(&sink, b(case, "read")));
    if !dead && done.iter().all(|d| !d.1) {
        // a stream of stored entries with known sizes
        let plan: Vec<String> = done.iter().map(|d| if d.0 < 1 << 20 { "read" } else { "skip" }.to_string()).chain(["read".to_string()]).collect();
        let truth: Vec<Vec<u8>> = done.iter().map(|d| if d.0 < 1 << 20 { vec![0; d.0 as usize] } else { vec![] }).collect();
        emits(stream_walk_on(BufReader::with_capacity(1 << 20, sink.clone()), &plan, &truth, &mut r));
    }
}
/// Like the other views, but entries are read without keeping them.
fn big_view(sink: &Sparse, read: bool) -> Value {
    run(async {
        let mut z = match seek::ZipFileReader::new(BufReader::with_capacity(1 << 16, sink.clone())).await {
            Ok(z) => z,
            Err(e) => return bad("seek", &e),
        };
        let mut j = file_json("seek", z.file());
        let mut es = vec![];
        for i in 0..z.file().entries().len() {
            let mut x = sto(&z.file().entries()[i]);
            if z.file().entries()[i].compressed_size() > 1 << 24 && !read {
                x["rd"] = json!([]);
                es.push(x);
                continue;
            }
            let rd = match z.reader_without_entry(i).await {
                Err(e) => json!({"api": "open", "res": errname(&e)}),
                Ok(mut rd) => {
                    let mut buf = vec![0u8; 1 << 20];
                    let (mut len, mut zero) = (0u64, true);
                    let res = loop {
                        match rd.read(&mut buf).await {
                            Ok(0) => break "ok".to_string(),
                            Ok(k) => {
                                zero &= all_zero(&buf[..k]);
                                len += k as u64;
                            }
                            Err(e) => break crate::io::ioname(&e),
                        }
                    };
                    let h = rd.compute_hash();
                    json!({"api": "pieces", "res": res, "n": limbs(len), "id": if zero { zid(len) } else { "mixed".into() }, "after": 0, "crc": hx32(h)})
                }
            };
            x["rd"] = json!([rd]);
            es.push(x);
        }
        j["ents"] = json!(es);
        j
    })
}

/// Very many small entries.
pub fn count(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 6);
    let mode = s(case, "mode");
    let total = n(case, "n");
    let mut w = ZipFileWriter::new(Vec::<u8>::new());
    match mode {
        "no64" => w = w.force_no_zip64(),
        "force64" => w = w.force_zip64(),
        _ => (),
    }
    let mut names = vec![];
    let mut refused = "-".to_string();
    for i in 0..total {
        let nm = format!("n{i}");
        let kind = match s(case, "k") {
            "mix" => ["W", "S", "P", "Q"][r.below(4) as usize],
            k => k,
        };
        let x = run(async {
            let b = |m| ZipEntryBuilder::new(nm.clone().into(), m);
            match kind {
                "W" => w.write_entry_whole(b(Compression::Stored), b"").await,
                "P" => w.write_entry_whole_precompressed(b(Compression::Stored).crc32(0u32).uncompressed_size(0u64), b"").await,
                "S" => w.write_entry_stream(b(Compression::Deflate)).await?.close().await,
                _ => {
                    let mut s = w.write_entry_stream_precompressed(b(Compression::Deflate).crc32(0u32).uncompressed_size(0u64)).await?;
                    s.write_all(&[3, 0]).await?;
                    s.close().await
                }
            }
        });
        match x {
            Ok(()) => names.push(nm),
            Err(e) => refused = errname(&e),
        }
    }
    let fin = run(w.close());
    let f = zres(&fin);
    let mut o = json!({"e": "Obs", "fam": "count", "mode": mode, "n": total, "okn": names.len(), "ref": refused, "fin": f, "claimed": 0, "onDisk": 0, "parsed": 0, "names": false, "z64": false,
        "co": limbs(0), "cs": limbs(0), "cdend": limbs(0), "rres": "-", "rn": 0, "rnames": false, "sres": "-", "sn": 0});
    if let Ok(bytes) = fin {
        let raw = rawzip::parse(&bytes, 0, &rawzip::RawOpts { data: false, max: 0 });
        let want = rawzip::names_digest(names.iter().map(|x| x.as_bytes()));
        if raw["end"]["ok"] == true {
            let (e, z) = (&raw["end"], &raw["z64"]);
            let has = b(z, "has");
            let get = |k: &str, zk: &str, max: u64| if has && unlimbs(&e[k]) == max { unlimbs(&z[zk]) } else { unlimbs(&e[k]) };
            o["claimed"] = json!(get("nt", "rnt", 0xffff));
            o["onDisk"] = json!(get("nd", "rnd", 0xffff));
            o["co"] = limbs(get("co", "rco", M32));
            o["cs"] = limbs(get("cs", "rcs", M32));
            o["parsed"] = json!(unlimbs(&raw["count"]));
            o["names"] = json!(s(&raw, "names") == want);
            o["cdend"] = raw["cdend"].clone();
            o["z64"] = json!(has);
        }
        match run(mem::ZipFileReader::new(bytes.clone())) {
            Ok(z) => {
                o["rres"] = json!("ok");
                o["rn"] = json!(z.file().entries().len());
                o["rnames"] = json!(rawzip::names_digest(z.file().entries().iter().map(|e| e.filename().as_bytes())) == want);
            }
            Err(e) => o["rres"] = json!(errname(&e)),
        }
        // a refused entry leaves dead bytes only after the last listed one, so that a stream reader meets the others
        run(async {
            let mut z = stream::ZipFileReader::new(&bytes[..]);
            let mut k = 0u64;
            let res = loop {
                match z.next_with_entry().await {
                    Ok(None) => break "none".to_string(),
                    Err(e) => break errname(&e),
                    Ok(Some(rd)) => {
                        if names.get(k as usize).map(|x| x.as_bytes()) != Some(rd.reader().entry().filename().as_bytes()) {
                            break "another entry".into();
                        }
                        k += 1;
                        match rd.skip().await {
                            Ok(b) => z = b,
                            Err(e) => break errname(&e),
                        }
                    }
                }
            };
            o["sres"] = json!(res);
            o["sn"] = json!(k);
        });
    }
    emit(o);
}

/// A directory of more than 4 GiB (or just less): n entries with names and comments of 65535 NUL bytes.
pub fn bigdir(case: &Value, _seed: u64, _idx: u64) {
    let mode = s(case, "mode");
    let sink = Sparse::default();
    let mut w = new(sink.clone(), mode);
    let per = 46 + 2 * 65535u64;
    let target = size(s(case, "size"));
    let full = target / per;
    let mut ok = 0u64;
    let last = target % per;
    let name = "\0".repeat(65535);
    let mut why = "-".to_string();
    let mut push = |nm: &str, cm: &str, w: &mut ZipFileWriter<Sparse>| {
        let x = run(w.write_entry_whole(ZipEntryBuilder::new(nm.into(), Compression::Stored).comment(cm.into()), b""));
        match x {
            Ok(()) => ok += 1,
            Err(e) => why = errname(&e),
        }
    };
    for _ in 0..full - 1 {
        push(&name, &name, &mut w);
    }
    // the last two records bring the size to exactly the target
    let rest = per + last;
    let (a, b) = (rest / 2, rest - rest / 2);
    for x in [a, b] {
        let nl = (x - 46).min(65535);
        push(&name[..nl as usize], &name[..(x - 46 - nl) as usize], &mut w);
    }
    let pos = sink.size();
    let fin = zres(&run(w.close()));
    let mut o = json!({"e": "Obs", "fam": "bigdir", "mode": mode, "want": limbs(target), "n": full + 1, "okn": ok, "ref": why, "fin": fin, "pos": limbs(pos), "z64": false, "claimed": 0,
        "co": limbs(0), "cs": limbs(0), "cdend": limbs(0), "rres": "-", "rn": 0});
    if fin == "ok" {
        let raw = rawzip::parse(&sink, 0, &rawzip::RawOpts { data: false, max: 0 });
        if raw["end"]["ok"] == true {
            let (e, z) = (&raw["end"], &raw["z64"]);
            let has = crate::util::b(z, "has");
            let get = |k: &str, zk: &str, max: u64| if has && unlimbs(&e[k]) == max { unlimbs(&z[zk]) } else { unlimbs(&e[k]) };
            o["z64"] = json!(has);
            o["claimed"] = json!(get("nt", "rnt", 0xffff));
            o["co"] = limbs(get("co", "rco", M32));
            o["cs"] = limbs(get("cs", "rcs", M32));
            o["cdend"] = raw["cdend"].clone();
        }
        match run(seek::ZipFileReader::new(BufReader::with_capacity(1 << 16, sink.clone()))) {
            Ok(z) => {
                o["rres"] = json!("ok");
                o["rn"] = json!(z.file().entries().len());
            }
            Err(e) => o["rres"] = json!(errname(&e)),
        }
    }
    emit(o);
}
