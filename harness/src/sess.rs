//! Client sessions on the real library. Every operation is recorded as one line with its inputs
//! and everything it returned; the recording is judged by the TLA+ specification, never here.
use crate::alloc;
use crate::api::*;
use crate::gv::*;
use crate::with_api;
use rowan::{GreenNode, GreenToken, NodeCache, NodeOrToken, TokenAtOffset, cursor};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub const NH: usize = 20;
pub const NG: usize = 10;
pub const NI: usize = 6;
/// borrows, numbered after the green slots
pub const NK: usize = 3;
const CAP: usize = 20_000;

pub enum ItKind {
    Seq(Box<dyn DynIt>),
    Walk(Box<dyn DynWalk>),
}
pub struct ItSlot {
    pub kind: ItKind,
    pub lg: u8,
    pub mutable: bool,
    pub entered: bool,
    pub done: bool,
    pub clonable: bool,
    /// the tree was edited since
    pub stale: bool,
    pub op: String,
}

pub struct Sess {
    pub h: Vec<Option<RawEl>>,
    pub g: Vec<Option<Green>>,
    pub it: Vec<Option<ItSlot>>,
    /// borrows from handles
    pub held: Vec<Option<Held>>,
    pub cache: Option<NodeCache>,
    pub memo: HashMap<Gv, Green>,
    pub out: Box<dyn Write>,
    pub events: usize,
    pub log: bool,
    /// names the operation being performed, in case it never returns
    pub pending: Option<std::fs::File>,
    /// blocks in use when the history started
    pub base: isize,
    /// handles were forgotten
    pub flooded: bool,
    ids: HashMap<usize, usize>,
}

/// Runs library code: allocations are attributed to it and panics are data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    let r = {
        let _t = alloc::Tag::new();
        catch_unwind(AssertUnwindSafe(f))
    };
    r.map_err(|p| {
        if ours(&p) {
            std::panic::resume_unwind(p)
        }
    })
}

/// Is this panic a mistake of the driver and not a refusal by the library?
fn ours(p: &Box<dyn std::any::Any + Send>) -> bool {
    let m = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied());
    m.is_some_and(|m| m.contains("harness:"))
}

/// Where the last panic came from, set by the hook.
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            let _t = alloc::Untag::new();
            *LAST_PANIC.lock().unwrap() = format!("{}:{}", l.file(), l.line());
        }
    }));
}

pub fn panic_proj() -> Value {
    json!({"n":-9,"k":0,"s":0,"e":0,"p":[]})
}

/// What the accessors say about an element.
pub fn proj<A: Api>(e: &El<A>, v: u8) -> Value {
    guard(|| {
        let r = A::range(e, v);
        let mut p = Vec::new();
        let mut cur = e.clone();
        while let Some(up) = A::parent(&cur, v) {
            p.push(A::index(&cur, v));
            cur = NodeOrToken::Node(up);
            assert!(p.len() < CAP);
        }
        p.reverse();
        let n = matches!(e, NodeOrToken::Node(_)) as u8;
        json!({"n":n,"k":A::kind(e, v),"s":u32::from(r.start()),"e":u32::from(r.end()),"p":p})
    })
    .unwrap_or_else(|_| panic_proj())
}

fn opt_proj<A: Api>(r: Result<Option<El<A>>, ()>, v: u8) -> (Value, Option<El<A>>) {
    match r {
        Err(()) => (json!([panic_proj()]), None),
        Ok(None) => (json!([]), None),
        Ok(Some(e)) => (json!([proj::<A>(&e, v)]), Some(e)),
    }
}

pub fn read_cursor_green(e: &RawEl) -> Result<Gv, ()> {
    guard(|| match e {
        NodeOrToken::Node(n) => Gv::read(NodeOrToken::Node(&n.green())),
        NodeOrToken::Token(t) => Gv::read(NodeOrToken::Token(t.green())),
    })
}
fn gv_json(r: Result<Gv, ()>) -> Value {
    match r {
        Ok(g) => g.json(),
        Err(()) => json!({"n":-9,"k":0,"t":[],"c":[]}),
    }
}

/// Subtree in document order through the cursor API.
pub fn dump<A: Api>(e: &El<A>, how: u8) -> Result<Value, ()> {
    guard(|| {
        let mut out = Vec::new();
        fn one<A: Api>(e: &El<A>, d: usize, out: &mut Vec<Value>) {
            let r = A::range(e, 0);
            let t = match e {
                NodeOrToken::Token(t) => cps(A::text(t)),
                _ => json!([]),
            };
            let n = matches!(e, NodeOrToken::Node(_)) as u8;
            assert!(out.len() < CAP);
            out.push(json!({"n":n,"k":A::kind(e,0),"d":d,"s":u32::from(r.start()),
                "e":u32::from(r.end()),"t":t}));
        }
        fn rec<A: Api>(e: &El<A>, d: usize, how: u8, out: &mut Vec<Value>) {
            one::<A>(e, d, out);
            match how {
                0 => {
                    if let Some(it) = A::seq(e, "children_with_tokens", &[], 0) {
                        it.for_each(|c| rec::<A>(&c, d + 1, how, out))
                    }
                }
                1 => {
                    // keep all children alive at once, in reverse
                    if matches!(e, NodeOrToken::Token(_)) {
                        return;
                    }
                    let mut kids = Vec::new();
                    let mut c = A::nav(e, "last_child_or_token", &[], 0);
                    while let Some(x) = c {
                        c = A::nav(&x, "prev_sibling_or_token", &[], 0);
                        kids.push(x);
                        assert!(kids.len() < CAP);
                    }
                    while let Some(x) = kids.pop() {
                        rec::<A>(&x, d + 1, how, out)
                    }
                }
                _ => {
                    if matches!(e, NodeOrToken::Token(_)) {
                        return;
                    }
                    let mut c = A::nav(e, "first_child_or_token", &[], 0);
                    while let Some(x) = c {
                        rec::<A>(&x, d + 1, how, out);
                        c = A::nav(&x, "next_sibling_or_token", &[], 0);
                    }
                }
            }
        }
        rec::<A>(e, 0, how, &mut out);
        Value::Array(out)
    })
}

fn u(e: &Value, f: &str) -> usize {
    e[f].as_u64().unwrap_or(0) as usize
}
fn us(e: &Value, f: &str) -> Vec<usize> {
    e[f].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}
fn ks(e: &Value, f: &str) -> Vec<u16> {
    us(e, f).into_iter().map(|x| x as u16).collect()
}
fn set(e: &mut Value, f: &str, v: Value) {
    e.as_object_mut().unwrap().insert(f.to_string(), v);
}

pub fn addr(g: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>) -> usize {
    match g {
        NodeOrToken::Node(n) => n as *const _ as *const u8 as usize,
        NodeOrToken::Token(t) => t as *const _ as *const u8 as usize,
    }
}
pub fn gaddr(g: &Green) -> usize {
    match g {
        NodeOrToken::Node(n) => addr(NodeOrToken::Node(n)),
        NodeOrToken::Token(t) => addr(NodeOrToken::Token(t)),
    }
}

impl Sess {
    pub fn new(out: Box<dyn Write>) -> Sess {
        Sess {
            h: (0..=NH).map(|_| None).collect(),
            g: (0..=NG).map(|_| None).collect(),
            it: (0..=NI).map(|_| None).collect(),
            held: (0..=NK).map(|_| None).collect(),
            cache: None,
            memo: HashMap::new(),
            out,
            events: 0,
            log: true,
            pending: None,
            base: 0,
            flooded: false,
            ids: HashMap::new(),
        }
    }

    /// A number for every green element; addresses are not used again within a history.
    fn id(&mut self, g: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>) -> usize {
        let n = self.ids.len() + 1;
        *self.ids.entry(addr(g)).or_insert(n)
    }
    fn preorder_ids(&mut self, g: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>, out: &mut Vec<usize>) {
        out.push(self.id(g));
        if let NodeOrToken::Node(n) = g {
            for c in n.children() {
                self.preorder_ids(c, out);
            }
        }
    }
    fn graph(&mut self, g: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>, out: &mut BTreeMap<usize, Vec<usize>>) -> usize {
        let i = self.id(g);
        if !out.contains_key(&i) {
            out.insert(i, vec![]);
            if let NodeOrToken::Node(n) = g {
                let kids: Vec<usize> = n.children().map(|c| self.graph(c, out)).collect();
                out.insert(i, kids);
            }
        }
        i
    }
    /// Everything the library holds: its blocks in use, and the green elements that handles, slots
    /// and the table of shared trees reach.
    fn mem(&mut self, e: &mut Value) {
        let n = alloc::live() - self.base;
        let mut gr = BTreeMap::new();
        let mut own = vec![];
        let greens: Vec<Green> = self.g.iter().flatten().cloned().chain(self.memo.values().cloned()).collect();
        for g in &greens {
            own.push(match g {
                NodeOrToken::Node(n) => self.graph(NodeOrToken::Node(n), &mut gr),
                NodeOrToken::Token(t) => self.graph(NodeOrToken::Token(t), &mut gr),
            });
        }
        drop(greens);
        for el in self.h.clone().into_iter().flatten() {
            let mut el = el;
            while let Ok(Some(p)) = guard(|| el.parent()) {
                el = NodeOrToken::Node(p);
            }
            own.push(match &el {
                NodeOrToken::Node(n) => {
                    let g = n.green().into_owned();
                    self.graph(NodeOrToken::Node(&g), &mut gr)
                }
                NodeOrToken::Token(t) => self.graph(NodeOrToken::Token(t.green()), &mut gr),
            });
        }
        own.sort();
        own.dedup();
        set(e, "n", json!(n));
        set(e, "df", json!(alloc::DOUBLE.load(std::sync::atomic::Ordering::SeqCst)));
        set(e, "own", json!(own));
        set(e, "gr", json!(gr.into_iter().collect::<Vec<_>>()));
        set(e, "its", json!(self.it.iter().flatten().count()));
    }

    pub fn emit(&mut self, e: Value) {
        self.events += 1;
        if self.log {
            let mut s = e.to_string();
            s.push('\n');
            self.out.write_all(s.as_bytes()).unwrap();
            if s.len() > 200_000 {
                self.out.flush().unwrap();
            }
        }
    }

    fn raw(&self, h: usize) -> RawEl {
        self.h[h].clone().expect("harness: free handle")
    }
    fn el<A: Api>(&self, h: usize) -> El<A> {
        A::up(self.raw(h))
    }
    fn store<A: Api>(&mut self, d: usize, e: Option<El<A>>) {
        if let Some(e) = e {
            if d != 0 {
                let old = self.h[d].replace(A::down(e));
                let _ = guard(|| drop(old));
            } else {
                let _ = guard(|| drop(e));
            }
        }
    }

    pub fn clear(&mut self) {
        for i in 0..=NI {
            let x = self.it[i].take();
            let _ = guard(|| drop(x));
        }
        for i in 0..=NK {
            let x = self.held[i].take();
            let _ = guard(|| drop(x));
        }
        for i in 0..=NH {
            let x = self.h[i].take();
            let _ = guard(|| drop(x));
        }
        for i in 0..=NG {
            let x = self.g[i].take();
            let _ = guard(|| drop(x));
        }
        let c = self.cache.take();
        let _ = guard(|| drop(c));
        let m = std::mem::take(&mut self.memo);
        drop(m);
    }

    /// Performs the operation an event describes and records the event with fresh results.
    /// "gone" and "crash" are recorded when that cannot be finished: because of the driver
    /// (which happens when something an earlier operation should have returned is not there),
    /// or because the library panicked where nothing may.
    pub fn exec(&mut self, ev: &Value) {
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| self.exec_inner(ev))) {
            let at = LAST_PANIC.lock().unwrap().clone();
            let a = if ours(&p) || at.starts_with("src/") { "gone" } else { "crash" };
            self.emit(json!({"a":a,"of":ev["a"],"at":at}));
        }
    }

    fn exec_inner(&mut self, ev: &Value) {
        if let Some(f) = &self.pending {
            use std::os::unix::fs::FileExt;
            let t = ev.to_string();
            let t = format!("{:9}{t}", t.len());
            let _ = f.write_all_at(t.as_bytes(), 0);
        }
        let mut e = ev.clone();
        let a = e["a"].as_str().unwrap().to_string();
        let (h, d, l, v) = (u(&e, "h"), u(&e, "d"), u(&e, "l") as u8, u(&e, "v") as u8);
        match a.as_str() {
            "reset" => {
                use std::sync::atomic::Ordering::SeqCst;
                self.clear();
                self.ids = HashMap::new();
                alloc::sweep();
                // what the history before left behind, released twice, or wrote to after its release
                set(&mut e, "left", json!([alloc::live() - self.base, alloc::DOUBLE.swap(0, SeqCst), alloc::WRITTEN.swap(0, SeqCst)]));
                self.base = alloc::live();
            }
            "mem" => self.mem(&mut e),
            "green" => {
                let gv = Gv::from_json(&e["g"]);
                let m = u(&e, "m");
                let r = match m {
                    0 => guard(|| gv.plain()),
                    1 if gv.is_node() => guard(|| gv.build()),
                    2 if gv.is_node() => {
                        let cache = self.cache.get_or_insert_with(NodeCache::default);
                        guard(|| gv.build_with(cache))
                    }
                    _ => {
                        let memo = &mut self.memo;
                        guard(|| gv.shared(memo))
                    }
                };
                let o = match r {
                    Ok(g) => {
                        let o = gv_json(guard(|| Gv::read_green(&g)));
                        if alloc::KEEP.load(std::sync::atomic::Ordering::SeqCst) && m == 2 {
                            let mut ids = vec![];
                            match &g {
                                NodeOrToken::Node(n) => self.preorder_ids(NodeOrToken::Node(n), &mut ids),
                                NodeOrToken::Token(t) => self.preorder_ids(NodeOrToken::Token(t), &mut ids),
                            }
                            set(&mut e, "ids", json!(if gv.is_node() { ids } else { vec![] }));
                        }
                        let old = self.g[d].replace(g);
                        let _ = guard(|| drop(old));
                        o
                    }
                    Err(()) => gv_json(Err(())),
                };
                set(&mut e, "o", o);
            }
            "root" => {
                let m = u(&e, "m") == 1;
                let g = match self.g[u(&e, "g")].clone() {
                    Some(NodeOrToken::Node(n)) => n,
                    _ => panic!("harness: root of a token"),
                };
                let o = with_api!(l, A => {
                    match guard(|| A::new_root(g, m)) {
                        Ok(n) => {
                            let el: El<A> = NodeOrToken::Node(n);
                            let o = proj::<A>(&el, v);
                            self.store::<A>(d, Some(el));
                            o
                        }
                        Err(()) => panic_proj(),
                    }
                });
                set(&mut e, "o", o);
            }
            "step" | "stepc" => {
                let op = e["op"].as_str().unwrap().to_string();
                let k = ks(&e, "K");
                let r = with_api!(l, A => {
                    let r = if a == "stepc" {
                        let taken = self.h[h].take().unwrap();
                        guard(|| match (taken, op.as_str()) {
                            (NodeOrToken::Node(n), "to_next_sibling") =>
                                n.to_next_sibling().map(NodeOrToken::Node),
                            (x, _) => x.to_next_sibling_or_token(),
                        }.map(A::up))
                    } else {
                        let el = self.el::<A>(h);
                        guard(|| A::nav(&el, &op, &k, v))
                    };
                    let (o, el) = opt_proj::<A>(r, v);
                    self.store::<A>(d, el);
                    o
                });
                set(&mut e, "r", r);
            }
            "goto" => {
                let p = us(&e, "p");
                let how = u(&e, "m");
                let r = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    let r = guard(move || {
                        let mut el = el;
                        for i in p {
                            let next = match how {
                                0 => A::seq(&el, "children_with_tokens", &[], 0).and_then(|mut it| it.nth(i)),
                                1 => {
                                    let mut c = A::nav(&el, "first_child_or_token", &[], 0);
                                    for _ in 0..i {
                                        c = c.and_then(|c| A::nav(&c, "next_sibling_or_token", &[], 0));
                                    }
                                    c
                                }
                                _ => {
                                    let mut c = A::nav(&el, "last_child_or_token", &[], 0);
                                    let mut k = 0;
                                    while let Some(x) = &c {
                                        if A::index(x, 0) == i { break; }
                                        c = A::nav(x, "prev_sibling_or_token", &[], 0);
                                        k += 1;
                                        assert!(k < CAP);
                                    }
                                    c
                                }
                            };
                            el = match next { Some(x) => x, None => return None };
                        }
                        Some(el)
                    });
                    let (o, el) = opt_proj::<A>(r, v);
                    self.store::<A>(d, el);
                    o
                });
                set(&mut e, "r", r);
            }
            "drop" => {
                let x = self.h[h].take();
                let _ = guard(|| drop(x));
            }
            "dropg" => {
                let x = self.g[u(&e, "g")].take();
                let _ = guard(|| drop(x));
            }
            // 2^n - 1 more handles, which are forgotten (the process may be ended instead)
            "flood" => {
                let n = (1u64 << u(&e, "n")) - 1;
                if u(&e, "g") > 0 {
                    let x = self.g[u(&e, "g")].clone().unwrap();
                    let _ = guard(|| (0..n).for_each(|_| std::mem::forget(x.clone())));
                } else {
                    let x = self.h[h].as_ref().unwrap();
                    let _ = guard(|| (0..n).for_each(|_| std::mem::forget(x.clone())));
                }
                self.flooded = true;
            }
            "cfu" | "csub" => {
                let st = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    let n = el.into_node().expect("harness: token");
                    let r = guard(|| if a == "cfu" { A::clone_for_update(&n) } else { A::clone_subtree(&n) });
                    match r {
                        Ok(n) => { self.store::<A>(d, Some(NodeOrToken::Node(n))); "ok" }
                        Err(()) => "panic",
                    }
                });
                set(&mut e, "st", json!(st));
            }
            "hold" => {
                let i = d - NG;
                let old = self.held[i].take();
                let _ = guard(|| drop(old));
                let r = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| Held::new::<A>(el))
                });
                let o = match &r {
                    Ok(k) => gv_json(guard(|| k.read())),
                    Err(()) => gv_json(Err(())),
                };
                self.held[i] = r.ok();
                set(&mut e, "o", o);
            }
            "unhold" => {
                let old = self.held[u(&e, "g") - NG].take();
                let _ = guard(|| drop(old));
            }
            "snap" => {
                let o = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    let r: Result<Green, ()> = guard(|| match &el {
                        NodeOrToken::Node(n) => NodeOrToken::Node(A::green_node(n)),
                        NodeOrToken::Token(t) => NodeOrToken::Token(A::green_token(t)),
                    });
                    match r {
                        Ok(g) => {
                            let o = gv_json(guard(|| Gv::read_green(&g)));
                            let old = self.g[d].replace(g);
                            let _ = guard(|| drop(old));
                            o
                        }
                        Err(()) => gv_json(Err(())),
                    }
                });
                set(&mut e, "o", o);
            }
            "detach" => {
                let st = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| A::detach(&el, v)).is_ok()
                });
                set(&mut e, "st", json!(if st { "ok" } else { "panic" }));
            }
            "splice" => {
                let (lo, hi, ins) = (u(&e, "lo"), u(&e, "hi"), us(&e, "ins"));
                let st = with_api!(l, A => {
                    let n = self.el::<A>(h).into_node().expect("harness: token");
                    let ins: Vec<El<A>> = ins.iter().map(|&i| self.el::<A>(i)).collect();
                    guard(|| A::splice(&n, lo, hi, &mut ins.into_iter())).is_ok()
                });
                set(&mut e, "st", json!(if st { "ok" } else { "panic" }));
            }
            "loop" => {
                let op = e["op"].as_str().unwrap().to_string();
                let k = ks(&e, "K");
                let mask = us(&e, "mask");
                let (r, m) = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    // the places before the loop, to name what is visited
                    let before: Vec<(El<A>, Value)> = guard(|| A::seq(&el, "children_with_tokens", &[], 0)
                        .map(|it| it.take(CAP).collect::<Vec<_>>()).unwrap_or_default())
                        .unwrap_or_default().into_iter().map(|c| { let p = proj::<A>(&c, v); (c, p) }).collect();
                    let keep = u(&e, "keep") == 1;
                    let before: Vec<(Option<El<A>>, Value, (u8, u16, u32))> = before.into_iter()
                        .map(|(c, p)| { let key = (matches!(c, NodeOrToken::Node(_)) as u8, A::kind(&c, 0), A::range(&c, 0).len().into());
                                        (if keep { Some(c) } else { None }, p, key) }).collect();
                    let mut seen: Vec<(usize, El<A>)> = Vec::new();
                    let mut used: Vec<usize> = Vec::new();
                    let mut i = 0;
                    let mut vis: Vec<Value> = Vec::new();
                    let r = guard(|| detach_loop::<A>(&el, &op, &k, &mut |c| {
                        // Children come in order. With all of them alive the visited one is found by
                        // identity, otherwise as the next one that looks the same.
                        let key = (matches!(c, NodeOrToken::Node(_)) as u8, A::kind(c, 0), u32::from(A::range(c, 0).len()));
                        let from = used.last().map(|x| x + 1).unwrap_or(0);
                        let pos = (from..before.len()).find(|&j| match &before[j].0 {
                            Some(b) => b == c,
                            None => before[j].2 == key,
                        });
                        vis.push(match pos { Some(j) => { used.push(j); before[j].1.clone() }, None => panic_proj() });
                        seen.push((i, c.clone()));
                        let det = mask.get(i).copied().unwrap_or(0) == 1;
                        i += 1;
                        det
                    }));
                    let mut vis = vis;
                    if !matches!(r, Ok(Some(()))) { vis.push(panic_proj()); }
                    let n = vis.len();
                    let _ = guard(|| drop(seen));
                    let _ = guard(|| drop(before));
                    (vis, n)
                });
                let mut mask = mask;
                mask.resize(m.max(mask.len()), 0);
                set(&mut e, "mask", json!(mask));
                set(&mut e, "r", json!(r));
            }
            "repl" => {
                let g = self.g[u(&e, "g")].clone().unwrap();
                let (st, o) = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    let r = guard(|| match (&el, g) {
                        (NodeOrToken::Node(n), NodeOrToken::Node(g)) => A::replace_node(n, g),
                        (NodeOrToken::Token(t), NodeOrToken::Token(g)) => A::replace_token(t, g),
                        _ => panic!("harness: node for token"),
                    });
                    match r {
                        Ok(n) => {
                            let n: Green = NodeOrToken::Node(n);
                            // what is shared with the old tree: below every node on the path, each
                            // child off the path is the same object as before
                            let sh = self.shared_off_path(h, &n);
                            set(&mut e, "sh", json!(sh));
                            let o = gv_json(guard(|| Gv::read_green(&n)));
                            let old = self.g[d].replace(n);
                            let _ = guard(|| drop(old));
                            ("ok", o)
                        }
                        Err(()) => { set(&mut e, "sh", json!(1)); ("panic", json!({})) },
                    }
                });
                set(&mut e, "st", json!(st));
                set(&mut e, "o", o);
            }
            "gedit" => {
                let src = self.g[u(&e, "g")].clone().unwrap();
                let n = src.into_node().expect("harness: token");
                let (lo, hi) = (u(&e, "lo"), u(&e, "hi"));
                let xs = us(&e, "xs");
                let args: Vec<Green> = xs.iter().map(|&i| self.g[i].clone().unwrap()).collect();
                let aa: Vec<usize> = args.iter().map(gaddr).collect();
                let sa: Vec<usize> = n.children().map(addr).collect();
                let op = e["op"].as_str().unwrap().to_string();
                let len = n.children().len();
                let r = guard(|| {
                    let mut args = args;
                    match op.as_str() {
                        "replace_child" => n.replace_child(lo, args.pop().unwrap()),
                        "insert_child" => n.insert_child(lo, args.pop().unwrap()),
                        "remove_child" => n.remove_child(lo),
                        "splice" => n.splice_children(lo..hi, args),
                        "splice_incl" => n.splice_children(lo..=hi - 1, args),
                        "splice_from" if hi == len => n.splice_children(lo.., args),
                        "splice_to" if lo == 0 => n.splice_children(..hi, args),
                        "splice_to_incl" if lo == 0 && hi > 0 => n.splice_children(..=hi - 1, args),
                        // an iterator that does not know its length
                        "splice_excl" if lo > 0 => n.splice_children(
                            (std::ops::Bound::Excluded(lo - 1), std::ops::Bound::Excluded(hi)),
                            args.into_iter().filter(|_| true),
                        ),
                        "splice_excl_incl" if lo > 0 && hi > 0 => n.splice_children(
                            (std::ops::Bound::Excluded(lo - 1), std::ops::Bound::Included(hi - 1)),
                            args.into_iter().filter(|_| true),
                        ),
                        "splice_full" if lo == 0 && hi == len => n.splice_children(.., args),
                        _ => n.splice_children(lo..hi, args),
                    }
                });
                let mut ids: HashMap<usize, usize> = HashMap::new();
                let mut id = |a: &usize| {
                    let k = ids.len() + 1;
                    *ids.entry(*a).or_insert(k)
                };
                let sa: Vec<usize> = sa.iter().map(&mut id).collect();
                let aa: Vec<usize> = aa.iter().map(&mut id).collect();
                set(&mut e, "sa", json!(sa));
                set(&mut e, "xa", json!(aa));
                match r {
                    Ok(n) => {
                        let ra: Vec<usize> = n.children().map(addr).collect();
                        set(&mut e, "ra", json!(ra.iter().map(&mut id).collect::<Vec<_>>()));
                        let n: Green = NodeOrToken::Node(n);
                        set(&mut e, "o", gv_json(guard(|| Gv::read_green(&n))));
                        let old = self.g[d].replace(n);
                        let _ = guard(|| drop(old));
                    }
                    Err(()) => {
                        set(&mut e, "ra", json!([0]));
                        set(&mut e, "o", gv_json(Err(())));
                    }
                }
            }
            "it" => {
                let op = e["op"].as_str().unwrap().to_string();
                let k = ks(&e, "K");
                let i = u(&e, "i");
                let mutable = self.is_mutable(h);
                let slot = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| A::iter(&el, &op, &k)).ok().flatten()
                });
                if let Some(it) = slot {
                    let clonable = matches!(op.as_str(), "children" | "children_with_tokens");
                    self.it[i] = Some(ItSlot {
                        kind: ItKind::Seq(it),
                        lg: l,
                        mutable,
                        entered: false,
                        done: false,
                        stale: false,
                        clonable,
                        op,
                    });
                }
            }
            "itn" | "walkn" => {
                let i = u(&e, "i");
                let mut slot = self.it[i].take().expect("harness: free iterator");
                let lg = slot.lg;
                let r: Result<Option<(u8, RawEl)>, ()> = guard(|| match &mut slot.kind {
                    ItKind::Seq(it) => it.next().map(|x| (9, x)),
                    ItKind::Walk(w) => w.next(),
                });
                slot.entered = matches!(r, Ok(Some((1, _))));
                slot.done = matches!(r, Ok(None) | Err(()));
                self.it[i] = Some(slot);
                let o = match r {
                    Err(()) if a == "itn" => json!([panic_proj()]),
                    Err(()) => json!([[9, panic_proj()]]),
                    Ok(None) => json!([]),
                    Ok(Some((t, x))) => with_api!(lg, A => {
                        let x = A::up(x);
                        let p = proj::<A>(&x, v);
                        self.store::<A>(d, Some(x));
                        if a == "itn" { json!([p]) } else { json!([[t, p]]) }
                    }),
                };
                set(&mut e, "l", json!(lg));
                set(&mut e, "r", o);
            }
            // some steps of an iterator whose tree was edited since
            "its" => {
                let i = u(&e, "i");
                let mut slot = self.it[i].take().expect("harness: free iterator");
                slot.stale = true;
                let lg = slot.lg;
                let mut got = vec![];
                let r = guard(|| {
                    for _ in 0..u(&e, "n") {
                        match &mut slot.kind {
                            ItKind::Seq(it) => got.extend(it.next()),
                            ItKind::Walk(w) => got.extend(w.next().map(|x| x.1)),
                        }
                    }
                });
                self.it[i] = Some(slot);
                let mut rs = with_api!(lg, A => {
                    got.into_iter().map(|x| proj::<A>(&A::up(x), v)).collect::<Vec<_>>()
                });
                if r.is_err() {
                    rs.push(panic_proj());
                }
                set(&mut e, "l", json!(lg));
                set(&mut e, "rs", json!(rs));
            }
            // client code that the library calls does something else at its n-th call
            "aside" => {
                let op = e["op"].as_str().unwrap().to_string();
                let act = e["act"].as_str().unwrap().to_string();
                let k = ks(&e, "K");
                let (n, vic, to, at) = (u(&e, "n"), u(&e, "vic"), u(&e, "to"), u(&e, "at"));
                // one handle to drop: gone from its slot while the operation runs
                let gone = std::rc::Rc::new(RefCell::new(None));
                if act == "drop" {
                    *gone.borrow_mut() = self.h[vic].take();
                }
                let el = self.h[h].clone().or_else(|| gone.borrow().clone()).expect("harness: free handle");
                if op == "ser" {
                    set(&mut e, "z", crate::extra::serialised(l, el.clone()));
                } else {
                    set(&mut e, "z", json!([]));
                }
                let f: Box<dyn FnOnce()> = with_api!(l, A => {
                    match act.as_str() {
                        "drop" => {
                            let gone = gone.clone();
                            Box::new(move || drop(gone.borrow_mut().take()))
                        }
                        "detach" => {
                            let vic = self.el::<A>(vic);
                            Box::new(move || A::detach(&vic, 1))
                        }
                        "splice" => {
                            let (vic, to) = (self.el::<A>(vic), self.el::<A>(to).into_node().expect("harness: token"));
                            Box::new(move || A::splice(&to, at, at, &mut std::iter::once(vic)))
                        }
                        "fmt" => {
                            let vic = self.el::<A>(vic);
                            Box::new(move || drop(format!("{vic}{vic:#?}")))
                        }
                        _ => {
                            let vic = self.el::<A>(vic);
                            Box::new(move || drop(A::seq(&vic, "descendants_with_tokens", &[], 0).map(|it| it.take(CAP).count())))
                        }
                    }
                });
                let ((rs, _), did) = crate::api::with_aside(n, f, || crate::extra::call_back(l, el, &op, &k, v));
                set(&mut e, "rs", json!(rs));
                set(&mut e, "w", crate::extra::what_was_seen());
                if let Some(x) = gone.borrow_mut().take() {
                    self.h[vic] = Some(x);
                }
                set(&mut e, "did", json!(did as u8));
            }
            // the children to insert come from an iterator over another node, one by one; it may panic
            "move" => {
                let (lo, hi, n) = (u(&e, "lo"), u(&e, "hi"), u(&e, "n"));
                let op = e["op"].as_str().unwrap().to_string();
                let k = ks(&e, "K");
                let (st, did) = with_api!(l, A => {
                    let el = self.el::<A>(h).into_node().expect("harness: token");
                    let from = self.el::<A>(u(&e, "from"));
                    let did = std::cell::Cell::new(false);
                    let r = guard(|| {
                        let mut i = 0;
                        let mut it = A::seq(&from, &op, &k, v).unwrap();
                        let mut ins = std::iter::from_fn(|| {
                            i += 1;
                            if i == n {
                                did.set(true);
                                crate::api::client_panic();
                            }
                            it.next()
                        });
                        A::splice(&el, lo, hi, &mut ins)
                    });
                    // how far it got
                    let kids = guard(|| el.children_with_tokens().take(CAP).count()).unwrap_or(CAP);
                    let _ = guard(|| drop((el, from)));
                    set(&mut e, "kids", json!(kids));
                    (r.is_ok(), did.get())
                });
                set(&mut e, "did", json!(did as u8));
                set(&mut e, "st", json!(if st { "ok" } else { "panic" }));
            }
            // an adaptor of the iterator: all but `nth` and `hint` use it up
            "itx" => {
                let i = u(&e, "i");
                let op = e["op"].as_str().unwrap().to_string();
                let n = e["n"].as_u64().unwrap_or(0) as usize;
                let mut slot = self.it[i].take().expect("harness: free iterator");
                let lg = slot.lg;
                let ItKind::Seq(mut it) = slot.kind else { panic!("harness: a walk") };
                enum R {
                    One(Option<RawEl>),
                    Num(Value),
                    All(Vec<RawEl>),
                }
                let (r, back) = match op.as_str() {
                    "nth" => (guard(|| R::One(it.nth(n))), Some(it)),
                    "hint" => {
                        let r = guard(|| it.hint()).map(|(lo, hi)| {
                            let cap = |x: usize| x.min(1 << 30);
                            R::Num(json!([cap(lo), hi.map_or(1 << 30, cap)]))
                        });
                        (r, Some(it))
                    }
                    "last" => (guard(|| R::One(it.last())), None),
                    "count" => (guard(|| R::Num(json!([it.count()]))), None),
                    _ => (guard(|| R::All(it.rest())), None),
                };
                slot.done |= matches!(r, Ok(R::One(None)) | Err(()));
                if let Some(it) = back {
                    slot.kind = ItKind::Seq(it);
                    self.it[i] = Some(slot);
                }
                let o = with_api!(lg, A => match r {
                    Err(()) if op == "hint" => json!([1 << 30, 0]),
                    Err(()) if op == "count" => json!([-1]),
                    Err(()) => json!([panic_proj()]),
                    Ok(R::Num(n)) => n,
                    Ok(R::One(None)) => json!([]),
                    Ok(R::One(Some(x))) => {
                        let x = A::up(x);
                        let p = proj::<A>(&x, v);
                        self.store::<A>(d, Some(x));
                        json!([p])
                    }
                    Ok(R::All(xs)) => {
                        json!(xs.into_iter().map(|x| proj::<A>(&A::up(x), v)).collect::<Vec<_>>())
                    }
                });
                set(&mut e, "l", json!(lg));
                set(&mut e, "r", o);
            }
            "itc" => {
                let (i, j) = (u(&e, "i"), u(&e, "j"));
                let s = self.it[i].as_ref().unwrap();
                if let ItKind::Seq(it) = &s.kind {
                    let c = guard(|| it.try_clone()).ok().flatten();
                    let c = c.map(|it| ItSlot {
                        kind: ItKind::Seq(it),
                        lg: s.lg,
                        mutable: s.mutable,
                        entered: false,
                        done: false,
                        stale: false,
                        clonable: s.clonable,
                        op: s.op.clone(),
                    });
                    let old = std::mem::replace(&mut self.it[j], c);
                    let _ = guard(|| drop(old));
                }
            }
            "itk" => {
                let i = u(&e, "i");
                let k = ks(&e, "K");
                let s = self.it[i].take().unwrap();
                let ItSlot { kind, lg, mutable, op, .. } = s;
                if let ItKind::Seq(it) = kind {
                    if let Ok(it) = guard(|| it.by_kind(k)) {
                        self.it[i] = Some(ItSlot {
                            clonable: lg == 0,
                            kind: ItKind::Seq(it),
                            lg,
                            mutable,
                            entered: false,
                        done: false,
                        stale: false,
                            op: format!("{op}_by_kind"),
                        });
                    }
                }
                set(&mut e, "l", json!(lg));
            }
            "itd" => {
                let x = self.it[u(&e, "i")].take();
                let _ = guard(|| drop(x));
            }
            "walk" => {
                let i = u(&e, "i");
                let tok = u(&e, "tok") as u8;
                let mutable = self.is_mutable(h);
                let w = with_api!(l, A => {
                    let n = self.el::<A>(h).into_node().unwrap();
                    guard(|| A::walk(&n, tok)).ok()
                });
                if let Some(w) = w {
                    let old = self.it[i].replace(ItSlot {
                        kind: ItKind::Walk(w),
                        lg: l,
                        mutable,
                        entered: false,
                        done: false,
                        stale: false,
                        clonable: false,
                        op: "walk".into(),
                    });
                    let _ = guard(|| drop(old));
                }
            }
            "walks" => {
                let i = u(&e, "i");
                if let Some(ItSlot { kind: ItKind::Walk(w), .. }) = &mut self.it[i] {
                    let _ = guard(|| w.skip());
                }
            }
            "navs" => {
                let mut rs = Vec::new();
                for q in e["rs"].as_array().unwrap().clone() {
                    let op = q["op"].as_str().unwrap().to_string();
                    let k = ks(&q, "K");
                    let o = with_api!(l, A => {
                        let el = self.el::<A>(h);
                        opt_proj::<A>(guard(|| A::nav(&el, &op, &k, v)), v).0
                    });
                    rs.push(json!({"op":op,"K":k,"r":o}));
                }
                set(&mut e, "rs", json!(rs));
            }
            "seqs" => {
                let mut rs = Vec::new();
                for q in e["rs"].as_array().unwrap().clone() {
                    let op = q["op"].as_str().unwrap().to_string();
                    let k = ks(&q, "K");
                    let keep = u(&q, "keep") == 1;
                    let o = with_api!(l, A => {
                        let el = self.el::<A>(h);
                        let mut out = Vec::new();
                        let r = guard(|| {
                            let mut kept = Vec::new();
                            let real_op = if op == "parent_ancestors" && u(&q, "dep") == 1 { "parent_ancestors_deprecated" } else { &op };
                            let it = A::seq(&el, real_op, &k, v).expect("harness: no such sequence");
                            for x in it {
                                out.push(proj::<A>(&x, v));
                                if keep { kept.push(x); }
                                assert!(out.len() < CAP);
                            }
                        });
                        if r.is_err() { out.push(panic_proj()); }
                        out
                    });
                    let mut q = q.clone();
                    set(&mut q, "r", json!(o));
                    rs.push(q);
                }
                set(&mut e, "rs", json!(rs));
            }
            "wholewalk" => {
                let tok = u(&e, "tok") as u8;
                let o = with_api!(l, A => {
                    let n = self.el::<A>(h).into_node().unwrap();
                    let mut out = Vec::new();
                    let r = guard(|| {
                        let mut w = A::walk(&n, tok);
                        while let Some((t, x)) = w.next() {
                            out.push(json!([t, proj::<A>(&A::up(x), v)]));
                            assert!(out.len() < CAP);
                        }
                    });
                    if r.is_err() { out.push(json!([9, panic_proj()])); }
                    out
                });
                set(&mut e, "r", json!(o));
            }
            "obs" => {
                let mut rs = Vec::new();
                for i in 1..=NH {
                    if self.h[i].is_none() {
                        continue;
                    }
                    let q = with_api!(l, A => {
                        let el = self.el::<A>(i);
                        let o = proj::<A>(&el, v);
                        let (t, m) = guard(|| match &el {
                            NodeOrToken::Token(t) => (cps(A::text(t)), json!(-1)),
                            NodeOrToken::Node(n) => {
                                let t = if u(&e, "txt") == 1 { cps(&A::node_text(n).to_string()) }
                                        else { json!([-1]) };
                                (t, json!(A::is_mutable(n) as u8))
                            }
                        }).unwrap_or((json!([-9]), json!(-9)));
                        json!({"h":i,"o":o,"t":t,"m":m})
                    });
                    rs.push(q);
                }
                set(&mut e, "rs", json!(rs));
            }
            "dump" => {
                let how = u(&e, "m") as u8;
                let o = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    dump::<A>(&el, how).unwrap_or(json!([{"n":-9,"k":0,"d":0,"s":0,"e":0,"t":[]}]))
                });
                set(&mut e, "o", o);
            }
            "tree" => {
                let el = self.raw(h);
                set(&mut e, "o", gv_json(read_cursor_green(&el)));
            }
            "greens" => {
                let mut rs = Vec::new();
                for i in 1..=NG {
                    if let Some(g) = &self.g[i] {
                        rs.push(json!({"g":i,"o":gv_json(guard(|| Gv::read_green(g)))}));
                    }
                }
                for i in 1..=NK {
                    if let Some(k) = &self.held[i] {
                        rs.push(json!({"g":NG + i,"o":gv_json(guard(|| k.read()))}));
                    }
                }
                set(&mut e, "rs", json!(rs));
            }
            "tokat" => {
                let mut rs = Vec::new();
                for q in e["rs"].as_array().unwrap().clone() {
                    let off = u(&q, "o") as u32;
                    let o = with_api!(l, A => {
                        let n = self.el::<A>(h).into_node().unwrap();
                        match guard(|| A::token_at(&n, off)) {
                            Err(()) => json!([panic_proj()]),
                            Ok(TokenAtOffset::None) => json!([]),
                            Ok(TokenAtOffset::Single(t)) => json!([proj::<A>(&NodeOrToken::Token(t), v)]),
                            Ok(TokenAtOffset::Between(a, b)) => json!([
                                proj::<A>(&NodeOrToken::Token(a), v), proj::<A>(&NodeOrToken::Token(b), v)]),
                        }
                    });
                    let (rb, lb, it) = with_api!(l, A => {
                        let n = self.el::<A>(h).into_node().unwrap();
                        let f = |t: Option<<A as Api>::T>| t.map(|t| proj::<A>(&NodeOrToken::Token(t), v)).into_iter().collect::<Vec<_>>();
                        (guard(|| f(A::token_at(&n, off).right_biased())).unwrap_or(vec![panic_proj()]),
                         guard(|| f(A::token_at(&n, off).left_biased())).unwrap_or(vec![panic_proj()]),
                         guard(|| {
                             let mut it = A::token_at(&n, off);
                             let mut out = vec![];
                             for _ in 0..4 {
                                 let left = it.len();
                                 match it.next() { Some(t) => out.push(json!([left, proj::<A>(&NodeOrToken::Token(t), v)])), None => break }
                             }
                             out
                         }).unwrap_or(vec![json!([-9, panic_proj()])]))
                    });
                    rs.push(json!({"o":off,"r":o,"rb":rb,"lb":lb,"it":it}));
                }
                set(&mut e, "rs", json!(rs));
            }
            "cover" | "childat" => {
                let mut rs = Vec::new();
                for q in e["rs"].as_array().unwrap().clone() {
                    let (s, t) = (u(&q, "s") as u32, u(&q, "e") as u32);
                    let o = with_api!(l, A => {
                        let n = self.el::<A>(h).into_node().unwrap();
                        if a == "cover" {
                            match guard(|| A::covering(&n, s, t)) {
                                Err(()) => panic_proj(),
                                Ok(x) => proj::<A>(&x, v),
                            }
                        } else {
                            opt_proj::<A>(guard(|| A::child_at(&n, s, t)), v).0
                        }
                    });
                    rs.push(json!({"s":s,"e":t,"r":o}));
                }
                set(&mut e, "rs", json!(rs));
            }
            "eqs" => {
                let mut rs = Vec::new();
                let live: Vec<usize> = (1..=NH).filter(|&i| self.h[i].is_some()).collect();
                for &i in &live {
                    for &j in &live {
                        let (eq, hq) = with_api!(l, A => {
                            let (x, y) = (self.el::<A>(i), self.el::<A>(j));
                            guard(|| {
                                let eq = match (&x, &y) {
                                    _ if v == 1 => x == y,
                                    (NodeOrToken::Node(x), NodeOrToken::Node(y)) => x == y,
                                    (NodeOrToken::Token(x), NodeOrToken::Token(y)) => x == y,
                                    _ => x == y,
                                };
                                (eq, hash(&x, v) == hash(&y, v))
                            }).map(|(a, b)| (a as i32, b as i32)).unwrap_or((-9, -9))
                        });
                        rs.push(json!({"i":i,"j":j,"eq":eq,"hq":hq}));
                    }
                }
                set(&mut e, "rs", json!(rs));
            }
            _ => {
                crate::extra::exec(self, &a, &mut e);
            }
        }
        self.emit(e);
    }

    pub fn is_mutable(&self, h: usize) -> bool {
        match &self.h[h] {
            Some(NodeOrToken::Node(n)) => n.is_mutable(),
            Some(NodeOrToken::Token(t)) => {
                guard(|| t.parent().map(|p| p.is_mutable()).unwrap_or(true)).unwrap_or(true)
            }
            None => false,
        }
    }

    /// After replacing the element of `h`: are all children next to the path the same objects?
    fn shared_off_path(&self, h: usize, new: &Green) -> u8 {
        guard(|| {
            let mut path: Vec<(cursor::SyntaxNode, usize)> = Vec::new();
            let mut cur = self.raw(h);
            while let Some(p) = cur.parent() {
                path.push((p.clone(), cur.index()));
                cur = NodeOrToken::Node(p);
            }
            path.reverse();
            let mut g: GreenNode = match new {
                NodeOrToken::Node(n) => n.clone(),
                NodeOrToken::Token(_) => return 0,
            };
            for (old, idx) in path {
                let og = old.green().into_owned();
                let a: Vec<usize> = og.children().map(addr).collect();
                let b: Vec<usize> = g.children().map(addr).collect();
                if a.len() != b.len() {
                    return 0;
                }
                for k in 0..a.len() {
                    if k != idx && a[k] != b[k] {
                        return 0;
                    }
                }
                let next = g.children().nth(idx).and_then(|c| c.into_node().map(|n| n.to_owned()));
                match next {
                    Some(n) => g = n,
                    None => break,
                }
            }
            1
        })
        .unwrap_or(0)
    }
}

pub fn hash<T: std::hash::Hash + Clone>(x: &T, _v: u8) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn green_token(k: u16, t: &str) -> GreenToken {
    GreenToken::new(rowan::SyntaxKind(k), t)
}
