//! Histories of tree builders and node caches on the real library, recorded for BuilderTrace.
use crate::alloc;
use crate::gv::*;
use crate::rng::Rng;
use crate::sess::{LAST_PANIC, guard};
use rowan::{Checkpoint, GreenNode, GreenNodeBuilder, NodeCache, NodeOrToken, SyntaxKind};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::panic::{AssertUnwindSafe, catch_unwind};

const NB: usize = 3;
const NC: usize = 3;
const NG: usize = 12;
const NCP: usize = 4;

type Ref<'a> = NodeOrToken<&'a rowan::GreenNodeData, &'a rowan::GreenTokenData>;

struct Slot {
    b: GreenNodeBuilder<'static>,
    cp: [Option<Checkpoint>; NCP + 1],
}

pub struct Build {
    b: Vec<Option<Slot>>,
    c: Vec<*mut NodeCache>,
    g: Vec<Option<GreenNode>>,
    ids: HashMap<usize, u32>,
    /// trees of the families (cache, family), kept so that no address is used twice
    bulk: HashMap<(usize, usize), Vec<GreenNode>>,
    pub out: Box<dyn Write>,
    pub pending: Option<std::fs::File>,
    pub events: usize,
    base: isize,
}

fn u(e: &Value, f: &str) -> usize {
    e[f].as_u64().unwrap_or(0) as usize
}

impl Build {
    pub fn new(out: Box<dyn Write>) -> Build {
        Build {
            b: (0..=NB).map(|_| None).collect(),
            c: vec![std::ptr::null_mut(); NC + 1],
            g: (0..=NG).map(|_| None).collect(),
            ids: HashMap::new(),
            bulk: HashMap::new(),
            out,
            pending: None,
            events: 0,
            base: alloc::live(),
        }
    }
    fn emit(&mut self, e: Value) {
        self.events += 1;
        let mut s = e.to_string();
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
    }
    fn drop_cache(&mut self, c: usize) {
        let p = std::mem::replace(&mut self.c[c], std::ptr::null_mut());
        if !p.is_null() {
            let b = unsafe { Box::from_raw(p) };
            let _ = guard(|| drop(b));
        }
    }
    pub fn clear(&mut self) {
        for i in 0..=NB {
            let x = self.b[i].take();
            let _ = guard(|| drop(x));
        }
        for i in 0..=NG {
            let x = self.g[i].take();
            let _ = guard(|| drop(x));
        }
        for c in 0..=NC {
            self.drop_cache(c);
        }
        self.ids = HashMap::new();
        self.drop_bulk(0);
    }
    /// Drops the families of a cache, or all.
    fn drop_bulk(&mut self, c: usize) {
        let keys: Vec<_> = self.bulk.keys().copied().filter(|k| c == 0 || k.0 == c).collect();
        for k in keys {
            let x = self.bulk.remove(&k);
            let _ = guard(|| drop(x));
        }
    }

    fn bulk(&mut self, ev: &Value) -> Value {
        let (c, f) = (u(ev, "c"), u(ev, "f"));
        let (kt, kn, shape) = (SyntaxKind(u(ev, "kt") as u16), SyntaxKind(u(ev, "kn") as u16), u(ev, "shape"));
        let (lo, hi) = (u(ev, "lo"), u(ev, "hi"));
        let pre = "x".repeat(u(ev, "w"));
        let text = |i: usize| format!("{pre}{i:06}");
        let order: Vec<usize> = if u(ev, "rev") == 1 { (lo..hi).rev().collect() } else { (lo..hi).collect() };
        let texts: Vec<String> = order.iter().map(|&i| text(i)).collect();
        let cache = unsafe { &mut *self.c[c] };
        let late = u(ev, "late") == 1;
        let r = guard(|| {
            let mut b = GreenNodeBuilder::with_cache(cache);
            let root = b.checkpoint();
            if !late {
                b.start_node(SyntaxKind(u(ev, "kr") as u16));
            }
            for t in &texts {
                let cp = b.checkpoint();
                if shape == 0 || late {
                    b.token(kt, t);
                }
                if shape != 0 {
                    if late { b.start_node_at(cp, kn) } else { b.start_node(kn) }
                    if shape == 3 {
                        if late { b.start_node_at(cp, kn) } else { b.start_node(kn) }
                    }
                    if !late {
                        b.token(kt, t);
                    }
                    if shape == 2 {
                        b.token(kt, t);
                        b.start_node(kn);
                        b.finish_node();
                    }
                    if shape == 3 {
                        b.finish_node();
                    }
                    b.finish_node();
                }
            }
            if late {
                b.start_node_at(root, SyntaxKind(u(ev, "kr") as u16));
            }
            b.finish_node();
            b.finish()
        });
        let Ok(g) = r else {
            return json!({"n":-9,"right":-9,"len":-9,"toks":-9,"nodes":-9});
        };
        let mut texts = texts.iter();
        let r = guard(|| {
            let mut right = 0;
            for x in g.children() {
                let Some(t) = texts.next() else { break };
                let tok = |x: Ref<'_>| matches!(x, NodeOrToken::Token(y) if y.kind() == kt && y.text() == t);
                fn of(x: Ref<'_>, k: SyntaxKind, n: usize) -> Option<&rowan::GreenNodeData> {
                    x.into_node().filter(|y| y.kind() == k && y.children().len() == n)
                }
                let ok = match shape {
                    0 => tok(x),
                    1 => of(x, kn, 1).is_some_and(|y| y.children().all(tok)),
                    2 => of(x, kn, 3).is_some_and(|y| {
                        y.children().take(2).all(tok) && y.children().nth(2).is_some_and(|z| of(z, kn, 0).is_some())
                    }),
                    _ => of(x, kn, 1).is_some_and(|y| {
                        y.children().all(|z| of(z, kn, 1).is_some_and(|z| z.children().all(tok)))
                    }),
                };
                right += ok as usize;
            }
            (right, g.children().len(), u32::from(g.text_len()))
        });
        let _u = alloc::Untag::new();
        let trees = self.bulk.entry((c, f)).or_default();
        trees.push(g);
        let (mut toks, mut nodes) = (std::collections::HashSet::new(), std::collections::HashSet::new());
        let mut todo: Vec<_> = trees.iter().flat_map(|g| g.children()).collect();
        while let Some(x) = todo.pop() {
            match x {
                NodeOrToken::Token(_) => toks.insert(crate::sess::addr(x)),
                NodeOrToken::Node(n) => {
                    todo.extend(n.children());
                    nodes.insert(crate::sess::addr(x))
                }
            };
        }
        match r {
            Ok((right, n, len)) => json!({"n":n,"right":right,"len":len,"toks":toks.len(),"nodes":nodes.len()}),
            Err(()) => json!({"n":-9,"right":-9,"len":-9,"toks":-9,"nodes":-9}),
        }
    }

    fn ids_of(&mut self, g: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>, out: &mut Vec<u32>) {
        let n = self.ids.len() as u32 + 1;
        let _u = alloc::Untag::new();
        out.push(*self.ids.entry(crate::sess::addr(g)).or_insert(n));
        if let NodeOrToken::Node(n) = g {
            for c in n.children() {
                self.ids_of(c, out);
            }
        }
    }

    pub fn exec(&mut self, ev: &Value) {
        if let Some(f) = &self.pending {
            use std::os::unix::fs::FileExt;
            let t = ev.to_string();
            let t = format!("{:9}{t}", t.len());
            let _ = f.write_all_at(t.as_bytes(), 0);
        }
        if catch_unwind(AssertUnwindSafe(|| self.exec_inner(ev))).is_err() {
            let at = LAST_PANIC.lock().unwrap().clone();
            let a = if at.starts_with("src/") { "gone" } else { "crash" };
            self.emit(json!({"a":a,"of":ev["a"],"at":at}));
        }
    }

    fn exec_inner(&mut self, ev: &Value) {
        let mut e = ev.clone();
        let o = e.as_object_mut().unwrap();
        let b = u(ev, "b");
        match ev["a"].as_str().unwrap() {
            "reset" => {
                self.clear();
                alloc::sweep();
                let left = json!([
                    alloc::live() - self.base,
                    alloc::DOUBLE.swap(0, SeqCst),
                    alloc::WRITTEN.swap(0, SeqCst)
                ]);
                o.insert("left".into(), left);
                self.base = alloc::live();
            }
            "note" => {}
            "bulk" => {
                let r = self.bulk(ev);
                for (k, v) in r.as_object().unwrap() {
                    o.insert(k.clone(), v.clone());
                }
            }
            "cache" => {
                let c = u(ev, "c");
                self.drop_bulk(c);
                self.drop_cache(c);
                self.c[c] = Box::into_raw(Box::new(guard(NodeCache::default).unwrap()));
            }
            "bnew" => {
                let c = u(ev, "c");
                let nb = if c == 0 {
                    GreenNodeBuilder::new()
                } else {
                    // one live builder per cache, as the borrow checker would have it
                    GreenNodeBuilder::with_cache(unsafe { &mut *self.c[c] })
                };
                self.b[b] = Some(Slot { b: nb, cp: [None; NCP + 1] });
            }
            "bdrop" => {
                let x = self.b[b].take();
                let _ = guard(|| drop(x));
            }
            "calls" => {
                let s = self.b[b].as_mut().expect("harness: no builder");
                let mut r = vec![];
                for x in ev["cs"].as_array().unwrap() {
                    let k = SyntaxKind(u(x, "k") as u16);
                    let i = u(x, "i");
                    let st = match x["o"].as_str().unwrap() {
                        "t" => {
                            let t = from_cps(&x["t"]);
                            guard(|| s.b.token(k, &t))
                        }
                        "s" => guard(|| s.b.start_node(k)),
                        "f" => guard(|| s.b.finish_node()),
                        "c" => guard(|| s.cp[i] = Some(s.b.checkpoint())),
                        "a" => match s.cp[i] {
                            Some(c) => guard(|| s.b.start_node_at(c, k)),
                            // never taken: nothing to call with
                            None => Err(()),
                        },
                        _ => panic!("harness: no such call"),
                    };
                    r.push(st.is_ok() as u8);
                }
                o.insert("r".into(), json!(r));
            }
            "bend" => {
                let s = self.b[b].take().expect("harness: no builder");
                let d = u(ev, "d");
                match guard(|| s.b.finish()) {
                    Ok(g) => {
                        let mut ids = vec![];
                        let v = guard(|| Gv::read(NodeOrToken::Node(&g)));
                        let _ = guard(|| self.ids_of(NodeOrToken::Node(&g), &mut ids));
                        let len = guard(|| u32::from(g.text_len()) as i64).unwrap_or(-9);
                        let txt = guard(|| g.to_string()).map(|t| cps(&t)).unwrap_or(json!([-9]));
                        o.insert("st".into(), json!(1));
                        o.insert("o".into(), v.map(|v| v.json()).unwrap_or(json!({"n":-9,"k":0,"t":[],"c":[]})));
                        o.insert("ids".into(), json!(ids));
                        o.insert("len".into(), json!(len));
                        o.insert("txt".into(), txt);
                        let old = self.g[d].replace(g);
                        let _ = guard(|| drop(old));
                    }
                    Err(()) => {
                        o.insert("st".into(), json!(0));
                        o.insert("o".into(), json!({"n":-9,"k":0,"t":[],"c":[]}));
                        o.insert("ids".into(), json!([]));
                        o.insert("len".into(), json!(0));
                        o.insert("txt".into(), json!([]));
                    }
                }
            }
            "gdrop" => {
                let x = self.g[u(ev, "d")].take();
                let _ = guard(|| drop(x));
            }
            "trees" => {
                let mut rs = vec![];
                for (i, g) in self.g.iter().enumerate() {
                    if let Some(g) = g {
                        let v = guard(|| Gv::read(NodeOrToken::Node(g)))
                            .map(|v| v.json())
                            .unwrap_or(json!({"n":-9,"k":0,"t":[],"c":[]}));
                        rs.push(json!({"g":i,"o":v}));
                    }
                }
                o.insert("rs".into(), json!(rs));
            }
            a => panic!("harness: no such event {a}"),
        }
        self.emit(e);
    }
}

/// Random histories.
pub struct BGen {
    pub r: Rng,
    pub s: Build,
    pub misuse: usize,
    pool: Vec<Gv>,
}

fn call(o: &str, k: u16, t: &str, i: usize) -> Value {
    json!({"o":o,"k":k,"t":cps(t),"i":i})
}

impl BGen {
    pub fn new(seed: u64, s: Build, prof: &str) -> BGen {
        BGen { r: Rng::new(seed), s, misuse: if prof == "C17" { 5 } else { 1 }, pool: vec![] }
    }

    fn feed(&mut self, g: &Gv, depth: usize, out: &mut Vec<Value>) {
        match g {
            Gv::Tok(k, t) => out.push(call("t", *k, t, 0)),
            Gv::Node(k, c) => {
                // the innermost four levels may be wrapped late
                let late = depth < NCP && self.r.chance(1, 3);
                let at = if late { self.r.below(c.len() + 1) } else { 0 };
                out.push(if late { call("c", 0, "", depth + 1) } else { call("s", *k, "", 0) });
                for (i, x) in c.iter().enumerate() {
                    if late && i == at {
                        out.push(call("a", *k, "", depth + 1));
                    }
                    self.feed(x, depth + 1, out);
                    if self.r.chance(1, 40) {
                        // a checkpoint nobody uses
                        out.push(call("c", 0, "", NCP));
                    }
                }
                if late && at == c.len() {
                    out.push(call("a", *k, "", depth + 1));
                }
                out.push(call("f", 0, "", 0));
            }
        }
    }

    /// Any calls, most of them allowed.
    fn noise(&mut self, n: usize) -> Vec<Value> {
        let mut out = vec![];
        let (mut open, mut len) = (0usize, 0usize);
        for _ in 0..n {
            let k = *self.r.pick(&[0u16, 1, 2, 65535]);
            let i = self.r.range(1, NCP);
            match self.r.below(10) {
                0..=3 => {
                    let t = *self.r.pick(&["a", "", "b", "é"]);
                    out.push(call("t", k, t, 0));
                    len += 1;
                }
                4 | 5 => {
                    out.push(call("s", k, "", 0));
                    open += 1;
                }
                6 | 7 => {
                    if open > 0 || self.r.chance(self.misuse, 20) {
                        out.push(call("f", 0, "", 0));
                        open = open.saturating_sub(1);
                    }
                }
                8 => out.push(call("c", 0, "", i)),
                _ => {
                    if len > 0 {
                        out.push(call("a", k, "", i));
                        open += 1;
                    }
                }
            }
        }
        out
    }

    fn some_tree(&mut self) -> Gv {
        if !self.pool.is_empty() && self.r.chance(1, 3) {
            // an old tree, whole or with others around it
            let g = self.r.pick(&self.pool).clone();
            if self.r.chance(1, 2) {
                return g;
            }
            let n = self.r.below(5);
            let k = self.r.below(4) as u16;
            let mut c = vec![g];
            for _ in 0..n {
                let x = self.r.pick(&self.pool).clone();
                if x.size() < 30 {
                    c.push(x);
                }
            }
            return Gv::Node(k, c);
        }
        let max = *self.r.pick(&[3, 6, 12, 25]);
        let mut s = random_shape(&mut self.r, max);
        s.kinds = s.kinds.min(4);
        if self.r.chance(1, 2) {
            s.width = s.width.min(4);
        }
        let mut g = random_tree(&mut self.r, &s);
        if self.r.chance(1, 6) {
            few_texts(&mut g, &mut self.r);
        }
        g
    }

    fn build_one(&mut self, b: usize, c: usize) {
        self.s.exec(&json!({"a":"bnew","b":b,"c":c}));
        let mut cs = vec![];
        if self.r.chance(self.misuse, 12) {
            let n = self.r.range(1, 14);
            cs = self.noise(n);
        } else {
            let g = self.some_tree();
            self.feed(&g, 0, &mut cs);
            if self.pool.len() < 60 && g.size() < 40 {
                self.pool.push(g);
            }
            if self.r.chance(self.misuse, 10) {
                // refused calls in between
                let at = self.r.below(cs.len() + 1);
                let bad = self.r.below(2);
                if bad == 0 {
                    cs.push(call("f", 0, "", 0));
                } else {
                    let i = self.r.range(1, NCP);
                    cs.insert(at, call("a", 9, "", i));
                }
            }
        }
        // in one go or in parts, with other builders at work in between
        let parts = self.r.range(1, 3);
        let n = cs.len().div_ceil(parts).max(1);
        for p in cs.chunks(n) {
            self.s.exec(&json!({"a":"calls","b":b,"cs":p}));
            if self.r.chance(1, 8) && b == 1 {
                self.build_one(2, 0);
            }
        }
        if self.r.chance(1, 15) {
            self.s.exec(&json!({"a":"bdrop","b":b}));
        } else {
            let d = self.r.range(1, NG);
            self.s.exec(&json!({"a":"bend","b":b,"d":d}));
        }
    }

    /// A long flat tree of many different elements, twice.
    fn many(&mut self, c: usize) {
        let n = *self.r.pick(&[40, 120, 300, 700]);
        let kinds = self.r.range(1, 3) as u16;
        let salt = self.r.below(1000);
        let nest = self.r.below(4);
        // texts that agree in length, at the beginning, at the end
        let same = self.r.chance(1, 2);
        let pre = "0123456789abcdefghijklmnopqrstuvwxyzéABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
            .chars()
            .take(*self.r.pick(&[0, 0, 3, 8, 17, 33, 64]))
            .collect::<String>();
        let suf = &pre[..if self.r.chance(1, 2) { 0 } else { pre.len() }];
        // kinds that agree in their low or high half
        let step = *self.r.pick(&[1u16, 1, 256, 0x1010]);
        for _ in 0..2 {
            self.s.exec(&json!({"a":"bnew","b":1,"c":c}));
            let mut cs = vec![call("s", 7, "", 0)];
            let mut order: Vec<usize> = (0..n).collect();
            if self.r.chance(1, 2) {
                self.r.shuffle(&mut order);
            }
            for i in order {
                let k = (i as u16) % kinds * step;
                let t = (i * 7919 + salt) % (2 * n);
                let t = if same { format!("{pre}{t:04}{suf}") } else { format!("{pre}{t}{suf}") };
                match nest {
                    0 => cs.push(call("t", k, &t, 0)),
                    _ => {
                        cs.push(call("s", k, "", 0));
                        cs.push(call("t", k, &t, 0));
                        if nest == 2 {
                            cs.push(call("t", k, &t[t.len() - 1..], 0));
                        }
                        if nest == 3 {
                            cs.push(call("s", i as u16 % 2, "", 0));
                            cs.push(call("f", 0, "", 0));
                        }
                        cs.push(call("f", 0, "", 0));
                    }
                }
            }
            cs.push(call("f", 0, "", 0));
            for p in cs.chunks(500) {
                self.s.exec(&json!({"a":"calls","b":1,"cs":p}));
            }
            let d = self.r.range(1, NG);
            self.s.exec(&json!({"a":"bend","b":1,"d":d}));
            self.s.exec(&json!({"a":"gdrop","d":d}));
        }
    }

    /// Very many elements of one cache.
    fn bulk(&mut self, c: usize) {
        let size = *self.r.pick(&[50usize, 900, 3000, 9000, 9000, 20000, 70000]);
        let (kt, kn) = *self.r.pick(&[(1u16, 2u16), (0, 0), (3, 259), (65535, 1)]);
        let (shape, w, f) = (self.r.below(4), *self.r.pick(&[0, 0, 1, 10, 70]), self.r.range(1, 4));
        let mut have = 0;
        for _ in 0..self.r.range(2, 3) {
            let lo = if self.r.chance(1, 2) { 0 } else { self.r.range(0, have) };
            let hi = if self.r.chance(1, 3) { have.max(lo + 1) } else { size.max(lo + 1) };
            self.s.exec(&json!({"a":"bulk","c":c,"f":f,"shape":shape,"kt":kt,"kn":kn,"kr":9,"w":w,"lo":lo,"hi":hi,
                                "rev":self.r.below(2),"late":self.r.below(2)}));
            have = have.max(hi);
            if self.r.chance(1, 4) {
                self.build_one(1, c);
            }
        }
    }

    pub fn session(&mut self) {
        self.s.exec(&json!({"a":"reset"}));
        self.pool.clear();
        let mut bulk = 0;
        let caches = self.r.range(1, NC);
        for c in 1..=caches {
            self.s.exec(&json!({"a":"cache","c":c}));
        }
        let n = self.r.range(3, 40);
        for _ in 0..n {
            let c = self.r.below(caches + 1);
            match self.r.below(20) {
                0 => self.s.exec(&json!({"a":"trees"})),
                1 => {
                    let d = self.r.range(1, NG);
                    self.s.exec(&json!({"a":"gdrop","d":d}));
                }
                2 if c != 0 && c != bulk && self.r.chance(1, 3) => self.s.exec(&json!({"a":"cache","c":c})),
                3 if self.r.chance(1, 6) => self.many(c),
                // once for a cache: the same family again would be another one
                4 if c != 0 && bulk == 0 && self.r.chance(1, 5) => {
                    bulk = c;
                    self.bulk(c)
                }
                _ => self.build_one(1, c),
            }
        }
        self.s.exec(&json!({"a":"trees"}));
    }

    /// A call sequence enumerated by TLC, with a fresh cache or one with a past.
    pub fn calls(&mut self, v: &Value, k: usize) {
        if k % 40 == 0 {
            self.s.exec(&json!({"a":"reset"}));
            self.s.exec(&json!({"a":"cache","c":1}));
        }
        let c = k % 4;
        self.s.exec(&json!({"a":"bnew","b":1,"c":if c == 3 { 0 } else { 1 }}));
        self.s.exec(&json!({"a":"calls","b":1,"cs":v}));
        self.s.exec(&json!({"a":"bend","b":1,"d":1 + k % NG}));
        if k % 40 == 39 {
            self.s.exec(&json!({"a":"trees"}));
        }
    }
}

fn few_texts(g: &mut Gv, r: &mut Rng) {
    match g {
        Gv::Tok(k, t) => {
            *k %= 2;
            *t = (*r.pick(&["", "a", "aa"])).to_string();
        }
        Gv::Node(k, c) => {
            *k %= 2;
            c.iter_mut().for_each(|c| few_texts(c, r));
        }
    }
}
