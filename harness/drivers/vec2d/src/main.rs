//! Executes histories of operations on the real `Vec2d` and records what can
//! be observed after each.  argv: script.ndjson out.ndjson
//! A script line: {"ops":[{"op":..,"s":"A",..}, ..]}, an output line has the
//! same operations with `reply` and `obs` (per slot) added.
use gearley_vec2d::{Vec2d, Vec2dCapacity};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ints(v: &Value) -> Vec<i64> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_i64().unwrap())
        .collect()
}
fn lists<I: Kind>(v: &Value) -> Vec<Vec<I>> {
    v.as_array().unwrap().iter().map(items).collect()
}
fn items<I: Kind>(v: &Value) -> Vec<I> {
    ints(v).into_iter().map(I::of).collect()
}
/// The numbers of the scripts, as values of several types.
trait Kind: Clone + Ord {
    fn of(x: i64) -> Self;
    fn num(&self) -> i64;
    /// What needs more than `Clone`; does nothing where the type does not have it.
    fn truncate(_: &mut Vec2d<Self>, _: usize) {
        panic!("driver: truncate needs Copy")
    }
    /// Keeping more sets than there are is refused.
    fn too_long(_: &Vec2d<Self>) -> bool {
        true
    }
    fn through(_: &Vec2d<Self>, how: &str) -> Vec2d<Self> {
        panic!("driver: no {how} for this type")
    }
}
macro_rules! copy_kind {
    () => {
        fn truncate(v: &mut Vec2d<Self>, n: usize) {
            v.truncate(n)
        }
        fn too_long(v: &Vec2d<Self>) -> bool {
            let n = v.len();
            (n < 40 || n % 16 == 0)
                .then(|| [n, n + 1].iter().all(|&n| refused(|| v.clone().truncate(n))))
                .unwrap_or(true)
        }
    };
}
macro_rules! text_kind {
    () => {
        fn through(src: &Vec2d<Self>, how: &str) -> Vec2d<Self> {
            match how {
                #[cfg(feature = "miniserde")]
                "miniserde" => {
                    let text = miniserde::json::to_string(src);
                    miniserde::json::from_str(&text).expect("miniserde cannot read back what it wrote")
                }
                #[cfg(feature = "serde")]
                "serde" => {
                    let text = serde_json::to_string(src).unwrap();
                    serde_json::from_str(&text).expect("serde cannot read back what it wrote")
                }
                // not in this build
                _ => src.clone(),
            }
        }
    };
}
impl Kind for i64 {
    fn of(x: i64) -> i64 {
        x
    }
    fn num(&self) -> i64 {
        *self
    }
    copy_kind!();
    text_kind!();
}
impl Kind for i8 {
    fn of(x: i64) -> i8 {
        x as i8
    }
    fn num(&self) -> i64 {
        *self as i64
    }
    copy_kind!();
    text_kind!();
}
/// Owns memory.
impl Kind for String {
    fn of(x: i64) -> String {
        // text order is the order of the numbers
        format!("{:09}", x + 100_000)
    }
    fn num(&self) -> i64 {
        self.parse::<i64>().unwrap() - 100_000
    }
    text_kind!();
}
/// No bytes at all; scripts for it use the number 0 only.
impl Kind for () {
    fn of(_: i64) {}
    fn num(&self) -> i64 {
        0
    }
    copy_kind!();
}
/// Large, and needing alignment.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(32))]
struct Wide([i64; 9]);
impl Kind for Wide {
    fn of(x: i64) -> Wide {
        Wide([x; 9])
    }
    fn num(&self) -> i64 {
        if self.0 == [self.0[0]; 9] {
            self.0[0]
        } else {
            i32::MIN as i64
        }
    }
    copy_kind!();
}

fn item<I: Kind>(o: Option<I>) -> Value {
    match o {
        None => json!(["none"]),
        Some(x) => json!(["item", x.num()]),
    }
}
fn nums<I: Kind>(v: &[I]) -> Vec<i64> {
    v.iter().map(|x| x.num()).collect()
}
fn refused<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}
fn obs<I: Kind>(v: &Vec2d<I>) -> Value {
    let n = v.len();
    let sets: Vec<Vec<i64>> = (0..n - 1).map(|i| nums(&v[i])).collect();
    let mut chart = vec![];
    while let Some(x) = v.get_item(chart.len()) {
        chart.push(x.num());
    }
    let beyond = [chart.len() + 1, chart.len() + n + 1, 1 << 40]
        .iter()
        .all(|&i| v.get_item(i).is_none())
        && refused(|| v[n - 1].len())
        && refused(|| v[n].len())
        && refused(|| v.index_at(n))
        && I::too_long(v);
    json!({
        "len": n, "sets": sets, "last": nums(v.last()), "chart": chart, "beyond": beyond,
        "index": (0..n).map(|i| v.index_at(i)).collect::<Vec<_>>(),
        "count": v.item_count(), "lastitem": item(v.last_item().cloned()),
    })
}

fn step<I: Kind>(slots: &mut BTreeMap<String, Vec2d<I>>, e: &Value) -> Value {
    let s = e["s"].as_str().unwrap().to_string();
    let none = json!(["none"]);
    let op = e["op"].as_str().unwrap();
    match op {
        "new" => {
            let k = e["n"].as_i64().unwrap_or(0);
            let v = match k {
                0 => Vec2d::new(),
                1 => Vec2d::default(),
                k => Vec2d::with_capacity(Vec2dCapacity {
                    chart_capacity: e["chart"].as_u64().unwrap_or(k as u64 * 3) as usize,
                    indices_capacity: e["sets"].as_u64().unwrap_or(k as u64) as usize,
                }),
            };
            slots.insert(s, v);
            return none;
        }
        "collect" => {
            let ss = lists::<I>(&e["ss"]);
            let v = if e["lazy"].as_bool().unwrap_or(false) {
                ss.into_iter()
                    .filter(|_| true)
                    .map(|l| l.into_iter().filter(|_| true))
                    .collect()
            } else {
                ss.into_iter().collect()
            };
            slots.insert(s, v);
            return none;
        }
        "clone" | "miniserde" | "serde" => {
            let src = &slots[&s];
            let v = match op {
                "clone" => src.clone(),
                how => I::through(src, how),
            };
            slots.insert(e["t"].as_str().unwrap().to_string(), v);
            return none;
        }
        // one object given the value of another that exists already
        "assign" => {
            let src = slots[&s].clone();
            slots
                .get_mut(e["t"].as_str().unwrap())
                .unwrap()
                .clone_from(&src);
            return none;
        }
        _ => {}
    }
    let v = slots.get_mut(&s).unwrap();
    let lazy = e["lazy"].as_bool().unwrap_or(false);
    match op {
        "clear" => v.clear(),
        "push" => v.push_item(I::of(e["x"].as_i64().unwrap())),
        "fill" => {
            for x in items(&e["l"]) {
                v.push_item(x);
            }
        }
        "pop" => return item(v.pop_item()),
        "next" => v.next_set(),
        "set" if lazy => v.extend_with_set(items(&e["l"]).into_iter().filter(|_| true)),
        "set" => v.extend_with_set(items(&e["l"]).into_iter()),
        "extend" if lazy => v.extend(
            lists::<I>(&e["ss"])
                .into_iter()
                .filter(|_| true)
                .map(|l| l.into_iter().filter(|_| true)),
        ),
        "extend" => v.extend(lists::<I>(&e["ss"])),
        "truncate" => I::truncate(v, e["n"].as_u64().unwrap() as usize),
        "chart" => v.truncate_chart(e["n"].as_u64().unwrap() as usize),
        "sort" => v.last_mut().sort_unstable(),
        "poke" => {
            v.last_mut()[e["i"].as_u64().unwrap() as usize - 1] = I::of(e["x"].as_i64().unwrap())
        }
        other => panic!("driver: unknown op {other}"),
    }
    none
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let f = BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in f.lines() {
        let session: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let run = match session["kind"].as_str() {
            Some("i8") => history::<i8>,
            Some("string") => history::<String>,
            Some("unit") => history::<()>,
            Some("wide") => history::<Wide>,
            _ => history::<i64>,
        };
        writeln!(out, "{}", run(&session)).unwrap();
    }
    out.flush().unwrap();
}

fn history<I: Kind>(session: &Value) -> Value {
    let quiet = session["last_only"].as_bool().unwrap_or(false);
    let mut slots: BTreeMap<String, Vec2d<I>> = BTreeMap::new();
    for s in session["slots"].as_array().unwrap() {
        slots.insert(s.as_str().unwrap().to_string(), Vec2d::new());
    }
    let ops = session["ops"].as_array().unwrap();
    let mut done = vec![];
    for (i, e) in ops.iter().enumerate() {
        let mut rec = e.clone();
        let want = !quiet || i + 1 == ops.len();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let reply = step(&mut slots, e);
            let o: BTreeMap<&String, Value> = if want {
                slots.iter().map(|(k, v)| (k, obs(v))).collect()
            } else {
                Default::default()
            };
            (reply, json!(o))
        }));
        match r {
            Ok((reply, o)) => {
                rec["reply"] = reply;
                rec["obs"] = o;
                done.push(rec);
            }
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                done.push(json!({"op": "panic", "during": e, "msg": msg}));
                break;
            }
        }
    }
    json!({ "ops": done })
}
