//! Records what the readers show of an archive.
use crate::exec::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use async_zip::base::read::{mem, seek, stream, WithEntry, ZipEntryReader};
use async_zip::{ZipEntry, ZipFile};
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use serde_json::{json, Value};

pub fn ent_json(e: &ZipEntry) -> Value {
    let (d, t) = words(e.last_modification_date());
    let m: u16 = match e.compression() {
        async_zip::Compression::Stored => 0,
        async_zip::Compression::Deflate => 8,
        async_zip::Compression::Deflate64 => 9,
        async_zip::Compression::Bz => 12,
        async_zip::Compression::Lzma => 14,
        async_zip::Compression::Zstd => 93,
        async_zip::Compression::Xz => 95,
        _ => 999,
    };
    json!({"name": seen(e.filename()), "cmt": seen(e.comment()), "m": m, "dt": format!("{d:04x}-{t:04x}"), "ia": hx16(e.internal_file_attribute()),
        "ea": hx32(e.external_file_attribute()), "perm": e.unix_permissions().map(|x| x as i64).unwrap_or(-1), "dir": match e.dir() { Ok(true) => "y", Ok(false) => "n", Err(_) => "e" },
        "crc": hx32(e.crc32()), "us": limbs(e.uncompressed_size()), "cs": limbs(e.compressed_size()), "nx": e.extra_fields().len()})
}
pub fn zres<T>(r: &Result<T, async_zip::error::ZipError>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => errname(e),
    }
}
pub async fn rd_checked<R: AsyncBufRead + Unpin>(mut r: ZipEntryReader<'_, R, WithEntry<'_>>) -> Value {
    let mut o = vec![];
    let x = r.read_to_end_checked(&mut o).await;
    let mut one = [0u8; 3];
    let after = match r.read(&mut one).await {
        Ok(k) => k as i64,
        Err(_) => -1,
    };
    json!({"api": "checked", "res": zres(&x), "n": limbs(*x.as_ref().unwrap_or(&o.len()) as u64), "id": id(&o), "after": after, "crc": "-"})
}
/// Reads in pieces of the given sizes (cyclic), then to the end, hashing via compute_hash.
pub async fn rd_pieces<R: AsyncBufRead + Unpin, E>(mut r: ZipEntryReader<'_, R, E>, sizes: &[usize]) -> Value {
    let mut o = vec![];
    let mut k = 0;
    let mut buf = vec![0u8; 70000];
    let res = loop {
        let want = sizes[k % sizes.len()].min(buf.len()).max(1);
        k += 1;
        match r.read(&mut buf[..want]).await {
            Ok(0) => break "ok".to_string(),
            Ok(n) if n <= want => o.extend_from_slice(&buf[..n]),
            Ok(_) => break "overrun".to_string(),
            Err(e) => break crate::io::ioname(&e),
        }
        if o.len() > 1 << 28 {
            break "runaway".into();
        }
    };
    let h = r.compute_hash();
    let mut one = [0u8; 3];
    let after = match r.read(&mut one).await {
        Ok(k) => k as i64,
        Err(_) => -1,
    };
    json!({"api": "pieces", "res": res, "n": limbs(o.len() as u64), "id": id(&o), "after": after, "crc": hx32(h)})
}
pub fn file_json(kind: &str, f: &ZipFile) -> Value {
    json!({"e": "View", "kind": kind, "res": "ok", "n": f.entries().len(), "cmt": seen(f.comment()), "z64": f.zip64(), "ents": []})
}
pub fn bad(kind: &str, e: &async_zip::error::ZipError) -> Value {
    json!({"e": "View", "kind": kind, "res": errname(e), "n": 0, "ents": []})
}
pub fn sto(e: &async_zip::StoredZipEntry) -> Value {
    let mut j = ent_json(e);
    j["ho"] = limbs(e.header_offset());
    j["hs"] = json!(e.header_size());
    j
}
const PIECES: [&[usize]; 5] = [&[70000], &[1, 2, 3, 5, 8, 13], &[4096], &[1000, 1], &[8192, 1, 2048]];

pub fn mem_view(bytes: &[u8], r: &mut Rng) -> Value {
    run(async {
        let z = match mem::ZipFileReader::new(bytes.to_vec()).await {
            Ok(z) => z,
            Err(e) => return bad("mem", &e),
        };
        let mut j = file_json("mem", z.file());
        let mut es = vec![];
        for (i, e) in z.file().entries().iter().enumerate() {
            let mut x = sto(e);
            let a = match z.reader_with_entry(i).await {
                Ok(rd) => rd_checked(rd).await,
                Err(e) => json!({"api": "open", "res": errname(&e)}),
            };
            let b = match z.reader_without_entry(i).await {
                Ok(rd) => rd_pieces(rd, PIECES[r.below(5) as usize]).await,
                Err(e) => json!({"api": "open", "res": errname(&e)}),
            };
            x["rd"] = json!([a, b]);
            es.push(x);
        }
        j["ents"] = json!(es);
        j
    })
}
pub fn seek_view(bytes: &[u8], sched: Sched, r: &mut Rng) -> Value {
    seek_view_on(Src::new(bytes.to_vec(), sched), "seek", r)
}
pub fn seek_view_on<R: AsyncBufRead + futures_lite::io::AsyncSeek + Unpin>(src: R, kind: &str, r: &mut Rng) -> Value {
    view_opened(run(seek::ZipFileReader::new(src)), kind, r)
}
pub fn view_opened<R: AsyncBufRead + futures_lite::io::AsyncSeek + Unpin>(z: Result<seek::ZipFileReader<R>, async_zip::error::ZipError>, kind: &str, r: &mut Rng) -> Value {
    run(async {
        let mut z = match z {
            Ok(z) => z,
            Err(e) => return bad(kind, &e),
        };
        let mut j = file_json(kind, z.file());
        let mut es = vec![];
        for i in 0..z.file().entries().len() {
            let mut x = sto(&z.file().entries()[i]);
            let a = match z.reader_with_entry(i).await {
                Ok(rd) => rd_checked(rd).await,
                Err(e) => json!({"api": "open", "res": errname(&e)}),
            };
            let b = match z.reader_without_entry(i).await {
                Ok(rd) => rd_pieces(rd, PIECES[r.below(5) as usize]).await,
                Err(e) => json!({"api": "open", "res": errname(&e)}),
            };
            let file = z.file().clone();
            let again = seek::ZipFileReader::from_raw_parts(z.inner_mut(), file);
            let c = match again.into_entry(i).await {
                Ok(rd) => rd_pieces(rd, PIECES[r.below(5) as usize]).await,
                Err(e) => json!({"api": "open", "res": errname(&e)}),
            };
            x["rd"] = json!([a, b, c]);
            es.push(x);
        }
        j["ents"] = json!(es);
        j
    })
}
pub struct Scratch(pub std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
pub fn scratch(bytes: &[u8]) -> Scratch {
    static K: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("zv-{}-{}.zip", std::process::id(), K.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::write(&p, bytes).expect("harness: scratch file");
    Scratch(p)
}
pub fn tokio_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(2).build().unwrap()
}
pub fn fs_view(bytes: &[u8], r: &mut Rng, rt: &tokio::runtime::Runtime) -> Value {
    let f = scratch(bytes);
    rt.block_on(async {
        let z = match async_zip::tokio::read::fs::ZipFileReader::new(&f.0).await {
            Ok(z) => z,
            Err(e) => return bad("fs", &e),
        };
        let mut j = file_json("fs", z.file());
        let mut es = vec![];
        for (i, e) in z.file().entries().iter().enumerate() {
            let mut x = sto(e);
            let a = match z.reader_with_entry(i).await {
                Ok(rd) => rd_checked(rd).await,
                Err(e) => json!({"api": "open", "res": errname(&e)}),
            };
            let b = match z.reader_without_entry(i).await {
                Ok(rd) => rd_pieces(rd, PIECES[r.below(5) as usize]).await,
                Err(e) => json!({"api": "open", "res": errname(&e)}),
            };
            x["rd"] = json!([a, b]);
            es.push(x);
        }
        j["ents"] = json!(es);
        j
    })
}

/// Walks the archive with the streaming reader following `plan` (cyclic): what to do with each entry.
/// `truth[i]` are the bytes entry i should deliver; used to say whether what was read is the right slice.
pub fn stream_walk(bytes: &[u8], sched: Sched, plan: &[String], truth: &[Vec<u8>], r: &mut Rng, fail_at: Option<u64>) -> Vec<Value> {
    let mut src = Src::new(bytes.to_vec(), sched);
    src.fail_at = fail_at;
    stream_walk_on(src, plan, truth, r)
}
pub fn stream_walk_on<R: AsyncBufRead + Unpin>(src: R, plan: &[String], truth: &[Vec<u8>], r: &mut Rng) -> Vec<Value> {
    stream_walk_z(stream::ZipFileReader::new(src), plan, truth, r, &|x| x)
}
pub fn stream_walk_z<R: AsyncBufRead + Unpin>(z: stream::ZipFileReader<stream::Ready<R>>, plan: &[String], truth: &[Vec<u8>], r: &mut Rng, again: &dyn Fn(R) -> R) -> Vec<Value> {
    let mut ev = vec![json!({"e": "SNew"})];
    // choices per entry must not depend on how many short reads came before
    let base = r.next();
    run(async {
        let mut z = z;
        let mut i = 0;
        let limit = truth.len() + 3;
        loop {
            if i > limit {
                ev.push(json!({"e": "SNext", "res": "runaway", "i": i}));
                return;
            }
            let act = plan[i % plan.len()].clone();
            let r = &mut Rng::new(base, i as u64, 3);
            let want: &[u8] = truth.get(i).map(|x| &x[..]).unwrap_or(&[]);
            macro_rules! body {
                ($rd:ident) => {{
                    let mut got = 0usize;
                    let mut good = true;
                    let goal = match act.as_str() {
                        "read" | "checked" | "read_wo" | "inner" => usize::MAX,
                        "skip" | "done0" | "skip_wo" => 0,
                        "part" | "part_wo" | "donepart" => r.below(want.len() as u64 + 1) as usize,
                        x => panic!("harness: plan {x}"),
                    };
                    let mut buf = vec![0u8; 80_000];
                    let mut eof = false;
                    let mut err = "ok".to_string();
                    while got < goal && !eof {
                        let k = (goal - got).min(r.pick(&[1, 7, 500, 4096, 5000, if want.len() > 60_000 { 80_000 } else { 300 }]));
                        match $rd.reader_mut().read(&mut buf[..k]).await {
                            Ok(0) => eof = true,
                            Ok(n) => {
                                good &= n <= k && want.get(got..got + n) == Some(&buf[..n.min(k)]);
                                got += n;
                            }
                            Err(e) => {
                                err = crate::io::ioname(&e);
                                break;
                            }
                        }
                        if got > want.len() + 100000 {
                            break;
                        }
                    }
                    ev.push(json!({"e": "SRead", "n": limbs(got as u64), "good": good, "eof": eof, "res": err}));
                    if err != "ok" {
                        return;
                    }
                }};
            }
            macro_rules! fin {
                ($rd:ident) => {{
                    let how = if act.starts_with("skip") || act.starts_with("part") { "SSkip" } else { "SDone" };
                    let x = if how == "SSkip" { $rd.skip().await } else { $rd.done().await };
                    ev.push(json!({"e": how, "res": zres(&x)}));
                    match x {
                        Ok(b) => {
                            z = if act == "inner" {
                                ev.push(json!({"e": "SInner"}));
                                stream::ZipFileReader::new(again(b.into_inner().await))
                            } else {
                                b
                            }
                        }
                        Err(_) => return,
                    }
                }};
            }
            if act.ends_with("_wo") {
                match z.next_without_entry().await {
                    Ok(None) => {
                        ev.push(json!({"e": "SNext", "res": "none", "i": i}));
                        return;
                    }
                    Err(e) => {
                        ev.push(json!({"e": "SNext", "res": errname(&e), "i": i}));
                        return;
                    }
                    Ok(Some(mut rd)) => {
                        ev.push(json!({"e": "SNext", "res": "some", "i": i, "with": false}));
                        body!(rd);
                        fin!(rd);
                    }
                }
            } else {
                match z.next_with_entry().await {
                    Ok(None) => {
                        ev.push(json!({"e": "SNext", "res": "none", "i": i}));
                        return;
                    }
                    Err(e) => {
                        ev.push(json!({"e": "SNext", "res": errname(&e), "i": i}));
                        return;
                    }
                    Ok(Some(mut rd)) => {
                        ev.push(json!({"e": "SNext", "res": "some", "i": i, "with": true, "ent": ent_json(rd.reader().entry())}));
                        if act == "checked" {
                            let mut o = vec![];
                            let x = rd.reader_mut().read_to_end_checked(&mut o).await;
                            ev.push(json!({"e": "SChecked", "res": zres(&x), "n": limbs(o.len() as u64), "good": o == want}));
                            if !matches!(x, Ok(_) | Err(async_zip::error::ZipError::CRC32CheckError)) {
                                return;
                            }
                        } else {
                            body!(rd);
                        }
                        fin!(rd);
                    }
                }
            }
            i += 1;
        }
    });
    ev
}
