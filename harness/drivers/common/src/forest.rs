//! A forest that records every call.
use cfg_symbol::Symbol;
use gearley_forest::item::Item;
use gearley_forest::{Forest, NullForest};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};

pub trait NodeText {
    fn text(&self) -> Value;
    /// A node for a token that the caller read by itself.
    fn token(sym: usize, set: u32) -> Self;
}
impl NodeText for () {
    fn text(&self) -> Value {
        json!(-1)
    }
    fn token(_: usize, _: u32) {}
}
impl NodeText for u32 {
    fn text(&self) -> Value {
        json!(*self)
    }
    fn token(sym: usize, set: u32) -> u32 {
        let node = next_node();
        log(json!({"f": "token", "sym": sym, "set": set, "node": node}));
        node
    }
}
impl NodeText for gearley_forest::node_handle::NodeHandle {
    fn text(&self) -> Value {
        json!(-1)
    }
    fn token(_: usize, _: u32) -> Self {
        panic!("driver: no tokens of this forest")
    }
}

pub struct RecForest;
impl Default for RecForest {
    fn default() -> Self {
        NEXT.with(|n| n.set(0));
        RecForest
    }
}
impl RecForest {
    fn node(&self) -> u32 {
        next_node()
    }
}
/// Nodes are numbered from 1.
fn next_node() -> u32 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
thread_local! {
    static NEXT: Cell<u32> = Cell::new(0);
    // The recognizer owns its forest, so the log leaves through a side door.
    static LOG: RefCell<Vec<Value>> = RefCell::new(vec![]);
}
pub fn take_log() -> Vec<Value> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn log(v: Value) {
    LOG.with(|l| l.borrow_mut().push(v))
}
impl Forest for RecForest {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        log(json!({"f": "begin"}));
    }
    fn push_summand(&mut self, item: Item<u32>) {
        log(json!({"f": "summand", "dot": item.dot, "origin": item.origin, "node": item.node}));
    }
    fn sum(&mut self, lhs: Symbol, origin: u32) -> u32 {
        let node = self.node();
        log(json!({"f": "sum", "lhs": lhs.usize(), "origin": origin, "node": node}));
        node
    }
    fn product(&mut self, left: u32, right: u32) -> u32 {
        let node = self.node();
        log(json!({"f": "product", "left": left, "right": right, "node": node}));
        node
    }
    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> u32 {
        let node = self.node();
        log(json!({"f": "leaf", "sym": token.usize(), "pos": pos, "value": value, "node": node}));
        node
    }
    fn nulling(&self, token: Symbol) -> u32 {
        // not numbered: asking for it any number of times changes nothing
        4_000_000 + token.usize() as u32
    }
}
pub type Null = NullForest;
