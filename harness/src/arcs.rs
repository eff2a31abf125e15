//! Green elements shared by threads: programs performed under a given schedule of the atomic
//! operations (when the library reports them), or by threads that run freely.
use crate::alloc;
use crate::gv::{Green, Gv};
use crate::rng::Rng;
use crate::sess::guard;
use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeOrToken, SyntaxKind};
use serde_json::{Value, json};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

pub const MAXT: usize = 4;

thread_local! {
    /// the thread of the run that this thread plays
    pub static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub fn me() -> Option<usize> {
    ME.try_with(|m| m.get()).ok().filter(|&m| m != usize::MAX)
}

// ------------------------------------------------------------------ what happened, in order

#[derive(Clone, Copy)]
struct Rec {
    what: u8,
    t: u8,
    op: u8,
    order: u8,
    a: usize,
    b: usize,
}
const AL: u8 = 1;
const FR: u8 = 2;
const AT: u8 = 3;
const NOTE: u8 = 4;
const RING: usize = 1 << 17;
static mut LOG: [Rec; RING] = [Rec { what: 0, t: 0, op: 0, order: 0, a: 0, b: 0 }; RING];
static LEN: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static BUSY: AtomicBool = AtomicBool::new(false);
pub static ATOMICS: AtomicUsize = AtomicUsize::new(0);
static SIDE: Mutex<Vec<Value>> = Mutex::new(Vec::new());

fn push(r: Rec) {
    while BUSY.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let n = LEN.load(SeqCst);
    if n < RING {
        unsafe {
            LOG[n] = r;
        }
    }
    LEN.store(n + 1, SeqCst);
    BUSY.store(false, SeqCst);
}
/// Called by the allocator.
pub fn allocated(p: usize, size: usize) {
    if ON.load(SeqCst) {
        if let Some(t) = me() {
            push(Rec { what: AL, t: t as u8, op: 0, order: 0, a: p, b: size });
        }
    }
}
pub fn released(p: usize) {
    if ON.load(SeqCst) {
        if let Some(t) = me() {
            push(Rec { what: FR, t: t as u8, op: 0, order: 0, a: p, b: 0 });
        }
    }
}
/// op: 0 load, 1 store, 2 update, 3 fence
pub fn atomic(at: usize, op: u8, order: u8) {
    ATOMICS.fetch_add(1, SeqCst);
    if ON.load(SeqCst) {
        if let Some(t) = me() {
            push(Rec { what: AT, t: t as u8, op, order, a: at, b: 0 });
        }
    }
}
fn note(t: usize, v: Value) {
    let i = {
        let mut s = SIDE.lock().unwrap();
        s.push(v);
        s.len() - 1
    };
    push(Rec { what: NOTE, t: t as u8, op: 0, order: 0, a: i, b: 0 });
}

// ------------------------------------------------------------------ scheduling

struct Plan {
    active: bool,
    n: usize,
    cur: usize,
    started: usize,
    done: [bool; MAXT + 1],
    sched: Vec<usize>,
    pos: usize,
}
static PLAN: Mutex<Plan> =
    Mutex::new(Plan { active: false, n: 0, cur: 0, started: 0, done: [false; MAXT + 1], sched: vec![], pos: 0 });
static TURN: [Condvar; MAXT + 1] = [const { Condvar::new() }; MAXT + 1];

impl Plan {
    fn pick(&mut self) -> usize {
        if self.started < self.n {
            // each runs to its first atomic operation
            self.started += 1;
            return self.started;
        }
        while self.pos < self.sched.len() {
            let t = self.sched[self.pos];
            self.pos += 1;
            if t >= 1 && t <= self.n && !self.done[t] {
                return t;
            }
        }
        (1..=self.n).find(|&t| !self.done[t]).unwrap_or(0)
    }
}
/// The current thread is about to perform an atomic operation: whose turn is it?
pub fn turn() {
    let Some(t) = me() else { return };
    let _u = alloc::Untag::new();
    let mut p = PLAN.lock().unwrap();
    if !p.active || t == 0 {
        return;
    }
    let next = p.pick();
    p.cur = next;
    if next != t {
        TURN[next].notify_one();
        while p.cur != t {
            p = TURN[t].wait(p).unwrap();
        }
    }
}
fn begin(t: usize) {
    let mut p = PLAN.lock().unwrap();
    while p.active && p.cur != t {
        p = TURN[t].wait(p).unwrap();
    }
}
fn finish(t: usize) {
    let mut p = PLAN.lock().unwrap();
    p.done[t] = true;
    if p.active {
        let next = p.pick();
        p.cur = next;
        TURN[next].notify_one();
    }
}

// ------------------------------------------------------------------ one run

#[derive(Clone, Debug)]
pub struct Prog {
    pub tree: Gv,
    /// how the tree is made
    pub m: usize,
    /// operations of threads 0.. (0: the one that makes the tree and waits for the others)
    pub p: Vec<Vec<String>>,
    pub s: Vec<usize>,
    pub free: bool,
}

impl Prog {
    pub fn json(&self, hb: bool) -> Value {
        json!({"a":"run","hb":hb as u8,"g":self.tree.json(),"m":self.m,"p":self.p,"s":self.s,"free":self.free as u8})
    }
    pub fn from_json(v: &Value) -> Prog {
        let arr = |v: &Value| v.as_array().cloned().unwrap_or_default();
        Prog {
            tree: Gv::from_json(&v["g"]),
            m: v["m"].as_u64().unwrap_or(0) as usize,
            p: arr(&v["p"])
                .iter()
                .map(|t| arr(t).iter().map(|o| o.as_str().unwrap().to_string()).collect())
                .collect(),
            s: arr(&v["s"]).iter().map(|t| t.as_u64().unwrap() as usize).collect(),
            free: v["free"].as_u64() == Some(1),
        }
    }
}

struct Shared<'a> {
    boxes: &'a [Mutex<Vec<Green>>],
    /// handles of thread 0, which the others may borrow
    lent: &'a [Green],
}

fn addrs(g: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>, out: &mut Vec<usize>) {
    match g {
        NodeOrToken::Node(n) => {
            out.push(n as *const _ as *const u8 as usize);
            n.children().for_each(|c| addrs(c, out));
        }
        NodeOrToken::Token(t) => out.push(t as *const _ as *const u8 as usize),
    }
}
fn as_ref(g: &Green) -> NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData> {
    match g {
        NodeOrToken::Node(n) => NodeOrToken::Node(&**n),
        NodeOrToken::Token(t) => NodeOrToken::Token(&**t),
    }
}
fn seen(g: &Green) -> (Value, Vec<usize>) {
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Gv::read_green(g).json()));
    let mut ids = vec![];
    addrs(as_ref(g), &mut ids);
    (v.unwrap_or(json!({"n":-9,"k":0,"t":[],"c":[]})), ids)
}

/// Performs operation `o` of thread `t` on its stack of handles.
fn perform(t: usize, o: &str, st: &mut Vec<Green>, sh: &Shared<'_>) {
    let op = &o[..1];
    let arg: usize = o[1..].parse().unwrap_or(0);
    let node = |st: &Vec<Green>| match st.last() {
        Some(NodeOrToken::Node(n)) => n.children().len() > 0,
        _ => false,
    };
    let applies = match op {
        "g" => !sh.lent.is_empty(),
        "V" => !sh.boxes[arg].lock().unwrap().is_empty(),
        "k" | "R" | "M" | "C" => node(st),
        "E" => st.len() >= 2,
        "N" => matches!(st.last(), Some(NodeOrToken::Node(_))),
        _ => !st.is_empty(),
    };
    if !applies {
        return;
    }
    if op == "w" {
        let i = st.len() - 1 - arg % st.len();
        let l = st.len() - 1;
        note(t, json!({"a":"swap","t":t,"i":i + 1}));
        st.swap(i, l);
        return;
    }
    let bx = sh.boxes.get(arg).filter(|_| op == "S").map(|b| b.lock().unwrap());
    note(t, json!({"a":"op","t":t,"op":op,"u":arg}));
    let mut end = json!({"a":"end","t":t,"op":op,"u":arg,"st":1});
    let mut ok = true;
    let mut new = false;
    match op {
        "d" => {
            let g = st.pop().unwrap();
            ok = guard(move || drop(g)).is_ok();
        }
        "S" => {
            // sent in the order recorded
            let g = st.pop().unwrap();
            bx.unwrap().push(g);
        }
        "V" => st.push(sh.boxes[arg].lock().unwrap().remove(0)),
        "r" => {
            let (v, _) = seen(st.last().unwrap());
            end["o"] = v;
        }
        "E" => {
            let (a, b) = (&st[st.len() - 1], &st[st.len() - 2]);
            match guard(|| a == b) {
                Ok(r) => end["r"] = json!(r as u8),
                Err(()) => ok = false,
            }
        }
        _ => {
            let src = if op == "g" { &sh.lent[arg % sh.lent.len()] } else { st.last().unwrap() };
            let r = guard(|| make(op, arg, src));
            match r {
                Ok(g) => {
                    st.push(g);
                    new = true;
                }
                Err(()) => ok = false,
            }
        }
    }
    if new {
        let (v, ids) = seen(st.last().unwrap());
        end["o"] = v;
        end["ids"] = json!(ids);
    }
    end["st"] = json!(ok as u8);
    note(t, end);
}

fn make(op: &str, arg: usize, src: &Green) -> Green {
    let n = match src {
        NodeOrToken::Node(n) => Some(n),
        _ => None,
    };
    match op {
        "c" | "g" => src.clone(),
        "k" => {
            let n = n.unwrap();
            let i = arg % n.children().len();
            match n.children().nth(i).unwrap() {
                NodeOrToken::Node(c) => NodeOrToken::Node(c.to_owned()),
                NodeOrToken::Token(c) => NodeOrToken::Token(c.to_owned()),
            }
        }
        // the first child replaced by the tree itself
        "R" => NodeOrToken::Node(n.unwrap().replace_child(0, src.clone())),
        // the green element of the first child, reached with a cursor
        "C" => {
            let r = rowan::cursor::SyntaxNode::new_root(n.unwrap().clone());
            match r.first_child_or_token().unwrap() {
                NodeOrToken::Node(c) => NodeOrToken::Node(c.green().into_owned()),
                NodeOrToken::Token(c) => NodeOrToken::Token(c.green().to_owned()),
            }
        }
        // without its first child, by editing
        "M" => {
            let r = if arg == 0 {
                rowan::cursor::SyntaxNode::new_root(n.unwrap().clone()).clone_for_update()
            } else {
                rowan::cursor::SyntaxNode::new_root_mut(n.unwrap().clone())
            };
            r.first_child_or_token().unwrap().detach();
            NodeOrToken::Node(r.green().into_owned())
        }
        // a node of kind 9 with the tree twice
        "B" => NodeOrToken::Node(GreenNode::new(SyntaxKind(9), [src.clone(), src.clone()])),
        // the same content, built anew with a cache
        "N" => {
            fn feed(b: &mut GreenNodeBuilder<'_>, g: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>) {
                match g {
                    NodeOrToken::Token(t) => b.token(t.kind(), t.text()),
                    NodeOrToken::Node(n) => {
                        b.start_node(n.kind());
                        n.children().for_each(|c| feed(b, c));
                        b.finish_node();
                    }
                }
            }
            let mut b = GreenNodeBuilder::new();
            feed(&mut b, as_ref(src));
            NodeOrToken::Node(b.finish())
        }
        _ => panic!("harness: no such operation {op}"),
    }
}

pub struct Runner {
    pub out: Box<dyn Write>,
    pub pending: Option<std::fs::File>,
    pub events: usize,
    /// the library reports its atomic operations
    pub hooked: bool,
}

impl Runner {
    fn emit(&mut self, v: &Value) {
        self.events += 1;
        let mut s = v.to_string();
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
    }

    /// Does the library report what it does with counts?
    pub fn probe(&mut self) {
        ATOMICS.store(0, SeqCst);
        let t = GreenToken::new(SyntaxKind(1), "x");
        let u = t.clone();
        drop(t);
        drop(u);
        self.hooked = ATOMICS.load(SeqCst) >= 3;
    }

    pub fn run(&mut self, p: &Prog) {
        alloc::sweep();
        let hb = self.hooked && !p.free;
        let head = p.json(hb);
        if let Some(f) = &self.pending {
            use std::os::unix::fs::FileExt;
            let t = head.to_string();
            let t = format!("{:9}{t}", t.len());
            let _ = f.write_all_at(t.as_bytes(), 0);
        }
        LEN.store(0, SeqCst);
        SIDE.lock().unwrap().clear();
        alloc::DOUBLE.store(0, SeqCst);
        let base = alloc::live();
        let n = p.p.len() - 1;
        assert!(n <= MAXT);
        ON.store(true, SeqCst);
        ME.set(0);
        let boxes: Vec<Mutex<Vec<Green>>> = (0..=n).map(|_| Mutex::new(vec![])).collect();
        let mut st: Vec<Green> = vec![];
        // thread 0 makes the tree
        note(0, json!({"a":"op","t":0,"op":"n","u":0}));
        let g = guard(|| if p.m == 0 { p.tree.plain() } else { p.tree.build() }).unwrap();
        let (v, ids) = seen(&g);
        st.push(g);
        note(0, json!({"a":"end","t":0,"op":"n","st":1,"o":v,"ids":ids}));
        let cut = p.p[0].iter().position(|o| o == "|").unwrap_or(p.p[0].len());
        for o in &p.p[0][..cut] {
            perform(0, o, &mut st, &Shared { boxes: &boxes, lent: &[] });
        }
        note(0, json!({"a":"start","t":0}));
        {
            let mut pl = PLAN.lock().unwrap();
            *pl = Plan {
                active: !p.free,
                n,
                cur: 0,
                started: 0,
                done: [false; MAXT + 1],
                sched: p.s.clone(),
                pos: 0,
            };
            if !p.free {
                pl.cur = pl.pick();
            }
        }
        let sh = Shared { boxes: &boxes, lent: &st };
        std::thread::scope(|s| {
            for t in 1..=n {
                let sh = &sh;
                let ops = &p.p[t];
                s.spawn(move || {
                    ME.set(t);
                    begin(t);
                    let mut st = vec![];
                    for o in ops {
                        perform(t, o, &mut st, sh);
                    }
                    while !st.is_empty() {
                        perform(t, "d", &mut st, sh);
                    }
                    finish(t);
                    ME.set(usize::MAX);
                });
            }
        });
        PLAN.lock().unwrap().active = false;
        note(0, json!({"a":"join","t":0}));
        let sh = Shared { boxes: &boxes, lent: &[] };
        for o in p.p[0].iter().skip(cut + 1) {
            perform(0, o, &mut st, &sh);
        }
        for u in 0..=n {
            while !boxes[u].lock().unwrap().is_empty() {
                perform(0, &format!("V{u}"), &mut st, &sh);
            }
        }
        while !st.is_empty() {
            perform(0, "d", &mut st, &sh);
        }
        ME.set(usize::MAX);
        ON.store(false, SeqCst);
        let left = alloc::live() - base;
        let double = alloc::DOUBLE.swap(0, SeqCst);
        alloc::sweep();
        let written = alloc::WRITTEN.swap(0, SeqCst);

        // write it down
        self.emit(&json!({"a":"reset"}));
        self.emit(&head);
        let len = LEN.load(SeqCst);
        assert!(len <= RING, "harness: log too small");
        let mut blocks: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
        let mut places: BTreeMap<usize, usize> = BTreeMap::new();
        let block = |m: &BTreeMap<usize, (usize, usize)>, a: usize| {
            m.range(..=a).next_back().filter(|(b, (s, _))| a < *b + *s).map(|(_, (_, i))| *i).unwrap_or(0)
        };
        let side = std::mem::take(&mut *SIDE.lock().unwrap());
        for i in 0..len {
            let r = unsafe { LOG[i] };
            let v = match r.what {
                AL => {
                    let id = blocks.len() + 1;
                    blocks.insert(r.a, (r.b, id));
                    json!({"a":"al","t":r.t,"b":id})
                }
                FR => json!({"a":"fr","t":r.t,"b":block(&blocks, r.a)}),
                AT => {
                    let k = places.len() + 1;
                    let x = if r.op == 3 { 0 } else { *places.entry(r.a).or_insert(k) };
                    let op = ["load", "store", "update", "fence"][r.op as usize];
                    json!({"a":"at","t":r.t,"x":x,"b":block(&blocks, r.a),"op":op,"o":r.order})
                }
                _ => {
                    let mut v = side[r.a].clone();
                    if let Some(ids) = v.get("ids").and_then(|x| x.as_array()) {
                        let ids: Vec<usize> =
                            ids.iter().map(|x| block(&blocks, x.as_u64().unwrap() as usize)).collect();
                        v["ids"] = json!(ids);
                    }
                    v
                }
            };
            self.emit(&v);
        }
        self.emit(&json!({"a":"over","left":[left, double, written]}));
    }
}

// ------------------------------------------------------------------ programs

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// A program and schedule enumerated by TLC over a node with one child.
pub fn planned(v: &Value, k: usize) -> Prog {
    let arr = |v: &Value| v.as_array().cloned().unwrap_or_default();
    let child = match k % 3 {
        0 => Gv::Tok(1, "a".into()),
        1 => Gv::Tok(2, "".into()),
        _ => Gv::Node(3, vec![]),
    };
    let mut p: Vec<Vec<String>> = vec![vec![]];
    let ts = arr(&v["p"]);
    let n = ts.len();
    for (i, t) in ts.iter().enumerate() {
        // thread 0 keeps nothing
        for _ in 0..(i + 1 < n) as usize {
            p[0].push("c".into());
        }
        p[0].push(format!("S{}", i + 1));
        let mut ops = vec![format!("V{}", i + 1)];
        ops.extend(arr(t).iter().map(|o| o.as_str().unwrap().to_string()));
        p.push(ops);
    }
    Prog {
        tree: Gv::Node(0, vec![child]),
        m: (k / 3) % 2,
        p,
        s: arr(&v["s"]).iter().map(|t| t.as_u64().unwrap() as usize).collect(),
        free: false,
    }
}

pub fn random(r: &mut Rng, free: bool) -> Prog {
    let tok = |r: &mut Rng| Gv::Tok(r.below(3) as u16, ["", "a", "bc"][r.below(3)].to_string());
    let mut kids = vec![];
    for _ in 0..r.below(4) {
        kids.push(match r.below(3) {
            0 => {
                let c = (0..r.below(3)).map(|_| tok(r)).collect();
                Gv::Node(r.below(3) as u16, c)
            }
            1 => Gv::Node(4, vec![Gv::Node(0, vec![tok(r)])]),
            _ => tok(r),
        });
    }
    let n = r.range(2, MAXT);
    let lend = r.chance(1, 3);
    let mut p = vec![vec![]];
    for t in 1..=n {
        let mut ops = vec![];
        if !lend || r.chance(1, 2) {
            p[0].push("c".into());
            p[0].push(format!("S{t}"));
            ops.push(format!("V{t}"));
        }
        for _ in 0..r.range(1, 7) {
            ops.push(match r.below(20) {
                0..=3 => "c".to_string(),
                4..=7 => "d".to_string(),
                8 | 9 => format!("k{}", r.below(3)),
                10 => "r".into(),
                11 => "R".into(),
                12 => "C".into(),
                13 => format!("M{}", r.below(2)),
                14 => "B".into(),
                15 => "N".into(),
                16 => "E".into(),
                17 => format!("S{}", r.range(0, n)),
                18 => format!("V{t}"),
                _ if lend => "g0".into(),
                _ => format!("w{}", r.below(3)),
            });
        }
        if r.chance(1, 2) {
            ops.push(format!("V{t}"));
        }
        p.push(ops);
    }
    if !lend {
        // thread 0 may keep a handle, or not
        if r.chance(2, 3) {
            p[0].push("d".into());
        }
    }
    p[0].push("|".into());
    p[0].extend(strs(&["r"]));
    // long turns and short ones
    let sticky = r.below(4) + 1;
    let mut s = vec![];
    let mut cur = 1;
    for _ in 0..60 {
        if r.chance(1, sticky) {
            cur = r.range(1, n);
        }
        s.push(cur);
    }
    Prog { tree: Gv::Node(5, kids), m: r.below(2), p, s: if free { vec![] } else { s }, free }
}
