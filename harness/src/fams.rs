//! One function per family of cases.
use crate::copy;
use crate::dates;
use crate::io::*;
use crate::limits;
use crate::rawzip;
use crate::reading;
use crate::util::*;
use crate::views::*;
use crate::writer;
use serde_json::{json, Value};
use std::cell::RefCell;

thread_local! {
    static EV: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
    static RT: RefCell<Option<&'static tokio::runtime::Runtime>> = const { RefCell::new(None) };
}
pub fn emit(v: Value) {
    EV.with(|e| e.borrow_mut().push(v));
}
pub fn emits(v: Vec<Value>) {
    EV.with(|e| e.borrow_mut().extend(v));
}
pub fn take_events() -> Vec<Value> {
    EV.with(|e| std::mem::take(&mut *e.borrow_mut()))
}
pub fn rt() -> &'static tokio::runtime::Runtime {
    RT.with(|r| *r.borrow_mut().get_or_insert_with(|| Box::leak(Box::new(tokio_rt()))))
}

pub fn dispatch(case: &Value, seed: u64, idx: u64) {
    match s(case, "fam") {
        "prog" => prog(case, seed, idx),
        "faults" => faults(case, seed, idx),
        "cancels" => cancels(case, seed, idx),
        "foreign" => reading::foreign_fam(case, seed, idx),
        "checked" => reading::checked(case, seed, idx),
        "hash" => reading::hash(case, seed, idx),
        "hostile" => reading::hostile(case, seed, idx),
        "bytes" => reading::bytes(case, seed, idx),
        "sched" => reading::sched(case, seed, idx),
        "cuts" => reading::cuts(case, seed, idx),
        "srcerr" => reading::srcerr(case, seed, idx),
        "access" => reading::access(case, seed, idx),
        "find" => reading::find(case, seed, idx),
        "noend" => reading::noend(case, seed, idx),
        "copy" => copy::copy(case, seed, idx),
        "limits" => limits::limits(case, seed, idx),
        "count" => limits::count(case, seed, idx),
        "bigdir" => limits::bigdir(case, seed, idx),
        "dos" => dates::dos(case, seed, idx),
        "build" => dates::builds(case, seed, idx),
        "chrono" => dates::chronos(case, seed, idx),
        x => panic!("harness: family {x}"),
    }
}
pub fn strs(case: &Value, k: &str) -> Vec<String> {
    arr(case, k).iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

/// What the independent parser says where things lie (sizes as laid down), for the directory views.
fn laid(bytes: &Vec<u8>, clen: u64) -> Value {
    laid_of(&rawzip::parse(bytes, clen, &rawzip::RawOpts { data: false, max: 100_000 }))
}
pub fn laid_of(raw: &Value) -> Value {
    json!({"e": "Laid", "z64": raw["z64"]["has"].as_bool().unwrap_or(false),
        "es": arr(raw, "cd").iter().map(|c| json!({"cs": c["ec"], "ho": c["eo"], "hs": 30 + c["nl"].as_u64().unwrap_or(0) + c["xl"].as_u64().unwrap_or(0)})).collect::<Vec<_>>()})
}

fn prog(case: &Value, seed: u64, idx: u64) {
    let sched = Sched::from_json(&case["sched"]);
    let w = writer::program(case, seed, idx, sched, &mut |_, _, _| ());
    emits(w.ev.clone());
    let mut r = Rng::new(seed, idx, 77);
    let views = strs(case, "views");
    if views.iter().any(|v| v == "same") {
        // the same program against a sink that takes everything at once
        let w2 = writer::program(case, seed, idx, Sched::free(), &mut |_, _, _| ());
        if !w.flushed {
            emit(json!({"e": "Same", "what": "bytes in the sink", "a": id(&w.sink.bytes()), "b": id(&w2.sink.bytes())}));
        }
        let strip = |ev: &[Value]| -> Vec<Value> {
            let mut v: Vec<Value> = ev.iter().filter(|e| s(e, "e") != "Feed").cloned().collect();
            if w.flushed {
                v.iter_mut().for_each(|e| e["pos"] = json!(0));
            }
            v
        };
        emit(json!({"e": "Same", "what": "results of the calls", "a": id(json!(strip(&w.ev)).to_string().as_bytes()), "b": id(json!(strip(&w2.ev)).to_string().as_bytes())}));
    }
    if !w.ok {
        return;
    }
    let bytes = w.sink.bytes();
    emit(laid(&bytes, w.comment.len() as u64));
    for v in &views {
        match v.as_str() {
            "raw" | "strict" => {
                let mut raw = rawzip::parse(&bytes, w.comment.len() as u64, &rawzip::RawOpts { data: true, max: 100_000 });
                raw["e"] = json!("Raw");
                raw["cmtlen"] = json!(w.comment.len());
                raw["strict"] = json!(v == "strict");
                emit(raw);
            }
            "mem" => {
                emit(mem_view(&bytes, &mut r));
                if let Ok(z) = crate::exec::run(async_zip::base::read::mem::ZipFileReader::new(bytes.clone())) {
                    emit(json!({"e": "Same", "what": "mem reader: data()", "a": id(&bytes), "b": id(z.data())}));
                }
            }
            "seek" => emit(seek_view(&bytes, Sched::from_json(&case["rsched"]), &mut r)),
            "fs" => emit(fs_view(&bytes, &mut r, rt())),
            "stream" => {
                if !w.dead {
                    let truth: Vec<Vec<u8>> = w.ents.iter().map(|e| e.0.data.to_vec()).collect();
                    emits(stream_walk(&bytes, Sched::from_json(&case["rsched"]), &strs(case, "plan"), &truth, &mut r, None));
                }
            }
            "same" => (),
            x => panic!("harness: view {x}"),
        }
    }
}

fn judge(w: &writer::Written, r: &mut Rng) {
    emits(w.ev.clone());
    if w.ok {
        let bytes = w.sink.bytes();
        let mut raw = rawzip::parse(&bytes, w.comment.len() as u64, &rawzip::RawOpts { data: true, max: 100_000 });
        raw["e"] = json!("Raw");
        raw["cmtlen"] = json!(w.comment.len());
        emit(raw);
        emit(mem_view(&bytes, r));
    }
}
/// The same program with one sink error at every (stride-th) byte position of its output.
fn faults(case: &Value, seed: u64, idx: u64) {
    let base = writer::program(case, seed, idx, Sched::free(), &mut |_, _, _| ());
    let total = base.sink.len() as u64;
    let mut r = Rng::new(seed, idx, 78);
    let stride = n(case, "stride").max(1);
    let mut k = r.below(stride);
    while k < total {
        let mut c = case.clone();
        c["absfault"] = json!(k);
        judge(&writer::program(&c, seed, idx, Sched::free(), &mut |_, _, _| ()), &mut r);
        k += stride;
    }
}
/// The same program with one of its calls dropped after every possible number of polls.
fn cancels(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 79);
    for j in 0..arr(case, "ops").len() {
        for k in 1..400u64 {
            let mut c = case.clone();
            c["ops"][j]["cancel"] = json!(k);
            let w = writer::program(&c, seed, idx, Sched::from_json(&case["sched"]), &mut |_, _, _| ());
            let hit = w.ev.iter().any(|e| s(e, "res") == "cancelled");
            judge(&w, &mut r);
            if !hit {
                break;
            }
        }
    }
}
