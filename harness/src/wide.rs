//! Trees with very many children and very long texts. Everything is recorded as runs of equal
//! neighbours; the recording is judged by the TLA+ specification, never here.
use crate::alloc;
use crate::api::*;
use crate::sess::{guard, proj};
use crate::with_api;
use rowan::{
    GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData, NodeCache, NodeOrToken, SyntaxKind, TokenAtOffset,
};
use serde_json::{Value, json};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::rc::Rc;

pub type Runs<T> = Vec<(Rc<T>, u64)>;
pub type Txt = Vec<(u32, u64)>;
type Green = NodeOrToken<GreenNode, GreenToken>;

const NH: usize = 12;
const NG: usize = 8;
const MOST: u64 = 3_000_000;

pub fn push<T: PartialEq>(rs: &mut Runs<T>, x: Rc<T>, n: u64) {
    if n == 0 {
        return;
    }
    if let Some(l) = rs.last_mut() {
        if Rc::ptr_eq(&l.0, &x) || *l.0 == *x {
            l.1 += n;
            return;
        }
    }
    rs.push((x, n));
}

pub fn rle(s: &str) -> Txt {
    let mut o: Txt = vec![];
    rle_to(&mut o, s);
    o
}
fn rle_to(o: &mut Txt, s: &str) {
    for c in s.chars() {
        match o.last_mut() {
            Some(l) if l.0 == c as u32 => l.1 += 1,
            _ => o.push((c as u32, 1)),
        }
    }
}
fn tjson(t: &Txt) -> Value {
    Value::Array(t.iter().map(|(c, n)| json!([c, n])).collect())
}
fn tfrom(v: &Value) -> Txt {
    v.as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as u32, p[1].as_u64().unwrap())).collect()
}
fn expand(t: &Txt) -> String {
    let mut s = String::new();
    for &(c, n) in t {
        let c = char::from_u32(c).unwrap();
        for _ in 0..n {
            s.push(c);
        }
    }
    s
}
pub fn tbytes(t: &Txt) -> u64 {
    t.iter().map(|&(c, n)| char::from_u32(c).unwrap().len_utf8() as u64 * n).sum()
}

/// A compressed green tree.
#[derive(Clone, PartialEq)]
pub struct U {
    pub n: u8,
    pub k: u16,
    pub t: Txt,
    pub c: Runs<U>,
}
impl U {
    pub fn tok(k: u16, t: Txt) -> U {
        U { n: 0, k, t, c: vec![] }
    }
    pub fn node(k: u16, kids: Runs<U>) -> U {
        let mut c = vec![];
        for (u, n) in kids {
            push(&mut c, u, n);
        }
        U { n: 1, k, t: vec![], c }
    }
    pub fn json(&self) -> Value {
        json!({"n":self.n,"k":self.k,"t":tjson(&self.t),
               "c":self.c.iter().map(|(u, n)| json!({"u":u.json(),"n":n})).collect::<Vec<_>>()})
    }
    pub fn from(v: &Value) -> U {
        U {
            n: v["n"].as_u64().unwrap() as u8,
            k: v["k"].as_u64().unwrap() as u16,
            t: tfrom(&v["t"]),
            c: v["c"].as_array().unwrap().iter().map(|r| (Rc::new(U::from(&r["u"])), r["n"].as_u64().unwrap())).collect(),
        }
    }
    pub fn len(&self) -> u64 {
        tbytes(&self.t) + self.c.iter().map(|(u, n)| u.len() * n).sum::<u64>()
    }
    pub fn count(&self) -> u64 {
        self.c.iter().map(|r| r.1).sum()
    }
    pub fn size(&self) -> u64 {
        1 + self.c.iter().map(|(u, n)| u.size() * n).sum::<u64>()
    }
    fn tokens(&self, set: &mut HashSet<(u16, Txt)>) {
        if self.n == 0 {
            set.insert((self.k, self.t.clone()));
        }
        self.c.iter().for_each(|r| r.0.tokens(set));
    }
    pub fn unit(&self, i: u64) -> &Rc<U> {
        let mut i = i;
        for (u, n) in &self.c {
            if i < *n {
                return u;
            }
            i -= n;
        }
        panic!("harness: no such child")
    }

    fn plain(&self) -> Green {
        if self.n == 0 {
            return NodeOrToken::Token(GreenToken::new(SyntaxKind(self.k), &expand(&self.t)));
        }
        let mut kids = vec![];
        for (u, n) in &self.c {
            let g = u.plain();
            kids.extend((0..*n).map(|_| g.clone()));
        }
        NodeOrToken::Node(GreenNode::new(SyntaxKind(self.k), kids))
    }
    /// how: 0 in order, 1 nodes start at checkpoints, 2 now and then
    fn feed(&self, b: &mut GreenNodeBuilder<'_>, how: u64, at: &mut u64) {
        *at += 1;
        if self.n == 0 {
            b.token(SyntaxKind(self.k), &expand(&self.t));
            return;
        }
        let cp = how == 1 || how == 2 && *at % 3 == 0;
        let c = b.checkpoint();
        if !cp {
            b.start_node(SyntaxKind(self.k));
        }
        for (u, n) in &self.c {
            if u.n == 0 {
                let t = expand(&u.t);
                for _ in 0..*n {
                    b.token(SyntaxKind(u.k), &t);
                }
            } else {
                for _ in 0..*n {
                    u.feed(b, how, at);
                }
            }
        }
        if cp {
            b.start_node_at(c, SyntaxKind(self.k));
        }
        b.finish_node();
    }
    pub fn make(&self, how: u64) -> Green {
        match how {
            0..=2 => {
                let mut b = GreenNodeBuilder::new();
                self.feed(&mut b, how, &mut 0);
                NodeOrToken::Node(b.finish())
            }
            3 => {
                let mut cache = NodeCache::default();
                let mut b = GreenNodeBuilder::with_cache(&mut cache);
                self.feed(&mut b, 0, &mut 0);
                NodeOrToken::Node(b.finish())
            }
            4 => self.plain(),
            _ => {
                // in two halves
                let all = self.plain().into_node().unwrap();
                let kids: Vec<Green> = all.children().map(|c| c.to_owned()).collect();
                let m = kids.len() / 2;
                let g = GreenNode::new(SyntaxKind(self.k), kids[m..].to_vec());
                NodeOrToken::Node(g.splice_children(0..0, kids[..m].to_vec()))
            }
        }
    }
}

type Ref<'a> = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;
fn addr(g: Ref<'_>) -> usize {
    match g {
        NodeOrToken::Node(n) => n as *const _ as *const u8 as usize,
        NodeOrToken::Token(t) => t as *const _ as *const u8 as usize,
    }
}
/// What a real green tree contains.
fn read(g: Ref<'_>, memo: &mut HashMap<usize, Rc<U>>) -> Rc<U> {
    if let Some(u) = memo.get(&addr(g)) {
        return u.clone();
    }
    let u = match g {
        NodeOrToken::Token(t) => U::tok(t.kind().0, rle(t.text())),
        NodeOrToken::Node(n) => {
            let mut c = vec![];
            for k in n.children() {
                push(&mut c, read(k, memo), 1);
            }
            U { n: 1, k: n.kind().0, t: vec![], c }
        }
    };
    let u = Rc::new(u);
    memo.insert(addr(g), u.clone());
    u
}
fn read_json(g: &Green) -> Value {
    let r = guard(|| {
        let _u = alloc::Untag::new();
        let mut memo = HashMap::new();
        match g {
            NodeOrToken::Node(n) => read(NodeOrToken::Node(n), &mut memo),
            NodeOrToken::Token(t) => read(NodeOrToken::Token(t), &mut memo),
        }
    });
    match r {
        Ok(u) => u.json(),
        Err(()) => json!({"n":-9}),
    }
}
fn token_objects(g: Ref<'_>, seen: &mut HashSet<usize>, toks: &mut HashSet<usize>) {
    if !seen.insert(addr(g)) {
        return;
    }
    match g {
        NodeOrToken::Token(_) => {
            toks.insert(addr(g));
        }
        NodeOrToken::Node(n) => n.children().for_each(|c| token_objects(c, seen, toks)),
    }
}

/// What a walk shows of a subtree.
#[derive(Clone, PartialEq)]
struct Sk {
    n: u8,
    k: u16,
    w: u64,
    g: i64,
    t: Txt,
    c: Runs<Sk>,
}
impl Sk {
    fn json(&self) -> Value {
        json!({"n":self.n,"k":self.k,"w":self.w,"g":self.g,"t":tjson(&self.t),
               "c":self.c.iter().map(|(u, n)| json!({"u":u.json(),"n":n})).collect::<Vec<_>>()})
    }
}
struct Skels {
    texts: HashMap<(usize, usize), Txt>,
    seen: u64,
}
impl Skels {
    fn new() -> Skels {
        Skels { texts: HashMap::new(), seen: 0 }
    }
    /// An element by itself, with where it starts and ends.
    fn one<A: Api>(&mut self, e: &El<A>) -> (Sk, u64, u64) {
        self.seen += 1;
        assert!(self.seen < MOST);
        let r = A::range(e, 0);
        let (s, f) = (u32::from(r.start()) as u64, u32::from(r.end()) as u64);
        let t = match e {
            NodeOrToken::Token(t) => {
                let x = A::text(t);
                self.texts.entry((x.as_ptr() as usize, x.len())).or_insert_with(|| rle(x)).clone()
            }
            _ => vec![],
        };
        let n = matches!(e, NodeOrToken::Node(_)) as u8;
        (Sk { n, k: A::kind(e, 0), w: f.wrapping_sub(s), g: 0, t, c: vec![] }, s, f)
    }
    fn gather(&self, kids: Vec<(Sk, u64, u64)>, start: u64) -> Runs<Sk> {
        let mut o = vec![];
        let mut at = start;
        for (mut k, s, f) in kids {
            k.g = s as i64 - at as i64;
            at = f;
            push(&mut o, Rc::new(k), 1);
        }
        o
    }
    /// how: 1 sequences of children, 2 from sibling to sibling, 3 the same backwards
    fn by_steps<A: Api>(&mut self, e: &El<A>, tok: u8, skip: &[u16], how: u64) -> (Sk, u64, u64) {
        let (mut sk, s, f) = self.one::<A>(e);
        if sk.n == 0 || skip.contains(&sk.k) {
            return (sk, s, f);
        }
        let mut kids = vec![];
        let ops = [
            ["first_child", "next_sibling", "children"],
            ["first_child_or_token", "next_sibling_or_token", "children_with_tokens"],
            ["last_child", "prev_sibling", ""],
            ["last_child_or_token", "prev_sibling_or_token", ""],
        ];
        if how == 1 {
            if let Some(it) = A::seq(e, ops[tok as usize][2], &[], 0) {
                for c in it {
                    let x = self.by_steps::<A>(&c, tok, skip, how);
                    kids.push(x);
                }
            }
        } else {
            let o = ops[tok as usize + if how == 3 { 2 } else { 0 }];
            let mut c = A::nav(e, o[0], &[], 0);
            while let Some(x) = c {
                let y = self.by_steps::<A>(&x, tok, skip, how);
                kids.push(y);
                c = A::nav(&x, o[1], &[], 0);
            }
            if how == 3 {
                kids.reverse();
            }
        }
        sk.c = self.gather(kids, s);
        (sk, s, f)
    }
    /// From the events of a walk; also counts the elements left that are not the ones entered.
    fn by_walk<A: Api>(&mut self, e: &El<A>, tok: u8, skip: &[u16]) -> (Value, u64) {
        let n = match e {
            NodeOrToken::Node(n) => n.clone(),
            NodeOrToken::Token(_) => panic!("harness: walk of a token"),
        };
        let mut w = A::walk(&n, tok);
        let mut odd = 0;
        let mut stack: Vec<(Sk, u64, u64, Vec<(Sk, u64, u64)>, RawEl)> = vec![];
        while let Some((ev, raw)) = w.next() {
            let el = A::up(raw.clone());
            if ev == 1 {
                let (sk, s, f) = self.one::<A>(&el);
                if skip.contains(&sk.k) {
                    w.skip();
                }
                stack.push((sk, s, f, vec![], raw));
            } else {
                let Some((mut sk, s, f, kids, r)) = stack.pop() else { return (json!("left too often"), odd) };
                if r != raw {
                    odd += 1;
                }
                sk.c = self.gather(kids, s);
                match stack.last_mut() {
                    Some(top) => top.3.push((sk, s, f)),
                    None => {
                        if w.next().is_some() {
                            return (json!("events after the end"), odd);
                        }
                        return (sk.json(), odd);
                    }
                }
            }
        }
        (json!("ended early"), odd)
    }
}

fn u(e: &Value, f: &str) -> usize {
    e[f].as_u64().unwrap_or(0) as usize
}
fn us(e: &Value, f: &str) -> Vec<usize> {
    e[f].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}
fn ks(e: &Value) -> Vec<u16> {
    us(e, "K").into_iter().map(|x| x as u16).collect()
}
fn set(e: &mut Value, f: &str, v: Value) {
    e.as_object_mut().unwrap().insert(f.to_string(), v);
}
fn boom() -> Value {
    json!({"n":-9,"k":0,"s":0,"e":0,"p":[]})
}
fn hash64<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn char_of(v: &Value) -> char {
    char::from_u32(v.as_u64().unwrap() as u32).unwrap()
}

/// Neighbouring elements of one sort.
struct Segs(Vec<[i64; 6]>);
impl Segs {
    /// n, k, w, i, s
    fn add(&mut self, n: u8, k: u16, w: i64, i: i64, s: i64, back: bool) {
        if let Some(q) = self.0.last_mut() {
            if q[2] == n as i64 && q[3] == k as i64 && q[4] == w {
                if !back && i == q[0] + q[1] && s == q[5] + q[1] * w {
                    q[1] += 1;
                    return;
                }
                if back && i == q[0] - 1 && s == q[5] - w {
                    q[0] = i;
                    q[1] += 1;
                    q[5] = s;
                    return;
                }
            }
        }
        self.0.push([i, 1, n as i64, k as i64, w, s]);
        assert!(self.0.len() < 10_000);
    }
    fn json(&self) -> Value {
        self.0.iter().map(|q| json!({"i":q[0],"m":q[1],"n":q[2],"k":q[3],"w":q[4],"s":q[5]})).collect()
    }
}

pub struct Wide {
    pub h: Vec<Option<RawEl>>,
    pub g: Vec<Option<Green>>,
    out: Box<dyn Write>,
    pub pending: Option<std::fs::File>,
    pub events: usize,
    base: isize,
}

impl Wide {
    pub fn new(out: Box<dyn Write>, pending: Option<std::fs::File>) -> Wide {
        Wide { h: (0..=NH).map(|_| None).collect(), g: (0..=NG).map(|_| None).collect(), out, pending, events: 0, base: 0 }
    }
    fn clear(&mut self) {
        for i in 0..=NH {
            let x = self.h[i].take();
            let _ = guard(|| drop(x));
        }
        for i in 0..=NG {
            let x = self.g[i].take();
            let _ = guard(|| drop(x));
        }
    }
    fn el<A: Api>(&self, h: usize) -> El<A> {
        A::up(self.h[h].clone().expect("harness: free handle"))
    }
    fn store<A: Api>(&mut self, d: usize, e: Option<El<A>>) {
        if let Some(e) = e {
            if d != 0 {
                let old = self.h[d].replace(A::down(e));
                let _ = guard(|| drop(old));
            } else {
                let _ = guard(|| drop(e));
            }
        }
    }
    fn store_green(&mut self, d: usize, r: Result<Green, ()>, e: &mut Value) {
        match r {
            Ok(g) => {
                set(e, "o", read_json(&g));
                let old = self.g[d].replace(g);
                let _ = guard(|| drop(old));
            }
            Err(()) => set(e, "o", json!({"n":-9})),
        }
    }
    fn emit(&mut self, e: Value) {
        self.events += 1;
        let mut s = e.to_string();
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
    }

    /// The view of a handle's text that the slices lead to.
    fn view<A: Api>(&self, h: usize, qs: &Value) -> rowan::SyntaxText {
        let NodeOrToken::Node(n) = self.el::<A>(h) else { panic!("harness: text of a token") };
        let mut t = A::node_text(&n);
        for q in qs.as_array().unwrap() {
            let (s, e) = (q[0].as_u64().unwrap() as u32, q[1].as_u64().unwrap() as u32);
            t = t.slice(rowan::TextRange::new(s.into(), e.into()));
        }
        t
    }

    pub fn exec(&mut self, input: &Value) {
        let mut e = input.clone();
        let a = e["a"].as_str().unwrap().to_string();
        if let Some(p) = &mut self.pending {
            use std::io::{Seek, SeekFrom};
            let s = e.to_string();
            let _ = p.seek(SeekFrom::Start(0));
            let _ = p.write_all(format!("{:08} {}", s.len(), s).as_bytes());
        }
        let (l, v, h, d) = (u(&e, "l") as u8, u(&e, "v") as u8, u(&e, "h"), u(&e, "d"));
        match a.as_str() {
            "reset" => {
                self.clear();
                self.base = alloc::live();
            }
            "note" => {}
            "end" => {
                self.clear();
                set(&mut e, "n", json!(alloc::live() - self.base));
                set(&mut e, "df", json!(alloc::DOUBLE.load(std::sync::atomic::Ordering::SeqCst)));
            }
            "green" => {
                let t = U::from(&e["g"]);
                let how = u(&e, "how") as u64;
                let r = guard(|| t.make(how));
                let mut sh = json!([]);
                if u(&e, "share") == 1 {
                    if let Ok(NodeOrToken::Node(n)) = &r {
                        let mut set = HashSet::new();
                        t.tokens(&mut set);
                        let (mut seen, mut toks) = (HashSet::new(), HashSet::new());
                        token_objects(NodeOrToken::Node(n), &mut seen, &mut toks);
                        sh = json!([set.len(), toks.len()]);
                    }
                }
                set(&mut e, "sh", sh);
                self.store_green(d, r, &mut e);
            }
            "root" => {
                let m = u(&e, "m") == 1;
                let g = self.g[u(&e, "g")].clone().and_then(|g| g.into_node()).expect("harness: root of a token");
                let o = with_api!(l, A => {
                    match guard(|| A::new_root(g, m)) {
                        Ok(n) => {
                            let el: El<A> = NodeOrToken::Node(n);
                            let o = proj::<A>(&el, v);
                            self.store::<A>(d, Some(el));
                            o
                        }
                        Err(()) => boom(),
                    }
                });
                set(&mut e, "o", o);
            }
            "goto" => {
                let (p, how) = (us(&e, "p"), u(&e, "how"));
                let r = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    let r = guard(move || {
                        let mut el = el;
                        for i in p {
                            let c = match how {
                                0 => A::seq(&el, "children_with_tokens", &[], 0).and_then(|mut it| it.nth(i)),
                                1 => {
                                    let mut c = A::nav(&el, "first_child_or_token", &[], 0);
                                    for _ in 0..i {
                                        c = c.and_then(|c| A::nav(&c, "next_sibling_or_token", &[], 0));
                                    }
                                    c
                                }
                                2 => {
                                    let mut c = A::nav(&el, "last_child_or_token", &[], 0);
                                    let mut k = 0;
                                    while let Some(x) = &c {
                                        if A::index(x, 0) == i { break; }
                                        c = A::nav(x, "prev_sibling_or_token", &[], 0);
                                        k += 1;
                                        assert!(k < MOST);
                                    }
                                    c
                                }
                                _ => {
                                    // by the position of the child, where that decides
                                    let q = A::seq(&el, "children_with_tokens", &[], 0).and_then(|mut it| it.nth(i));
                                    let r = q.as_ref().map(|q| A::range(q, 0));
                                    match (&el, r) {
                                        (NodeOrToken::Node(n), Some(r)) if !r.is_empty() =>
                                            A::child_at(n, r.start().into(), r.end().into()),
                                        _ => q,
                                    }
                                }
                            };
                            el = c?;
                        }
                        Some(el)
                    });
                    match r {
                        Ok(Some(x)) => { let o = json!([proj::<A>(&x, v)]); self.store::<A>(d, Some(x)); o }
                        Ok(None) => json!([]),
                        Err(()) => json!([boom()]),
                    }
                });
                set(&mut e, "r", r);
            }
            "step" => {
                let op = e["op"].as_str().unwrap().to_string();
                let k = ks(&e);
                let r = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    match guard(|| A::nav(&el, &op, &k, v)) {
                        Ok(Some(x)) => { let o = json!([proj::<A>(&x, v)]); self.store::<A>(d, Some(x)); o }
                        Ok(None) => json!([]),
                        Err(()) => json!([boom()]),
                    }
                });
                set(&mut e, "r", r);
            }
            "seg" => {
                let op = e["op"].as_str().unwrap().to_string();
                let k = ks(&e);
                let back = op.ends_with("prev");
                let r = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| {
                        let mut out = Segs(vec![]);
                        let mut n = 0;
                        for c in A::seq(&el, &op, &k, 0).expect("harness: no such sequence") {
                            let r = A::range(&c, 0);
                            let i = if A::parent(&c, 0).is_some() { A::index(&c, v) as i64 } else { 0 };
                            let _u = alloc::Untag::new();
                            out.add(matches!(c, NodeOrToken::Node(_)) as u8, A::kind(&c, v), u32::from(r.len()) as i64, i,
                                    u32::from(r.start()) as i64, back);
                            n += 1;
                            assert!(n < MOST);
                        }
                        out.json()
                    }).unwrap_or(json!("panic"))
                });
                set(&mut e, "r", r);
            }
            "skel" => {
                let (tok, how) = (u(&e, "tok") as u8, u(&e, "how") as u64);
                let skip: Vec<u16> = us(&e, "skip").into_iter().map(|x| x as u16).collect();
                let (o, odd) = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| {
                        let _u = alloc::Untag::new();
                        let mut s = Skels::new();
                        if how == 0 { s.by_walk::<A>(&el, tok, &skip) } else { (s.by_steps::<A>(&el, tok, &skip, how).0.json(), 0) }
                    }).unwrap_or((json!("panic"), 0))
                });
                set(&mut e, "o", o);
                set(&mut e, "odd", json!(odd));
            }
            "tokat" | "cover" | "childat" => {
                let rs: Vec<Value> = with_api!(l, A => {
                    let NodeOrToken::Node(n) = self.el::<A>(h) else { panic!("harness: token") };
                    e["qs"].as_array().unwrap().iter().map(|q| {
                        if a == "tokat" {
                            let o = q.as_u64().unwrap();
                            let r = match guard(|| A::token_at(&n, o as u32)) {
                                Ok(TokenAtOffset::None) => json!([]),
                                Ok(TokenAtOffset::Single(t)) => json!([proj::<A>(&NodeOrToken::Token(t), v)]),
                                Ok(TokenAtOffset::Between(x, y)) =>
                                    json!([proj::<A>(&NodeOrToken::Token(x), v), proj::<A>(&NodeOrToken::Token(y), v)]),
                                Err(()) => json!([boom()]),
                            };
                            json!([o, r])
                        } else {
                            let (s, f) = (q[0].as_u64().unwrap(), q[1].as_u64().unwrap());
                            let r = if a == "cover" {
                                match guard(|| A::covering(&n, s as u32, f as u32)) {
                                    Ok(x) => proj::<A>(&x, v),
                                    Err(()) => boom(),
                                }
                            } else {
                                match guard(|| A::child_at(&n, s as u32, f as u32)) {
                                    Ok(Some(x)) => json!([proj::<A>(&x, v)]),
                                    Ok(None) => json!([]),
                                    Err(()) => json!([boom()]),
                                }
                            };
                            json!([s, f, r])
                        }
                    }).collect()
                });
                set(&mut e, "rs", json!(rs));
            }
            "obs" => {
                let mut rs = vec![];
                for i in 1..=NH {
                    if self.h[i].is_none() {
                        continue;
                    }
                    let (o, m) = with_api!(l, A => {
                        let el = self.el::<A>(i);
                        let m = match &el { NodeOrToken::Node(n) => A::is_mutable(n) as i32, _ => -1 };
                        (proj::<A>(&el, v), m)
                    });
                    rs.push(json!({"h":i,"m":m,"o":o}));
                }
                set(&mut e, "rs", json!(rs));
            }
            "eqs" | "geqs" => {
                let mut rs = vec![];
                for p in e["ps"].as_array().unwrap() {
                    let (i, j) = (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize);
                    let r = if a == "eqs" {
                        let (x, y) = (self.h[i].clone().unwrap(), self.h[j].clone().unwrap());
                        guard(|| (x == y, hash64(&x) == hash64(&y)))
                    } else {
                        let (x, y) = (self.g[i].clone().unwrap(), self.g[j].clone().unwrap());
                        guard(|| (x == y, hash64(&x) == hash64(&y)))
                    };
                    let (eq, hq) = r.map(|(a, b)| (a as i32, b as i32)).unwrap_or((-9, -9));
                    rs.push(json!({"i":i,"j":j,"eq":eq,"hq":hq}));
                }
                set(&mut e, "rs", json!(rs));
            }
            "gkids" => {
                let n = self.g[u(&e, "g")].clone().and_then(|g| g.into_node()).expect("harness: token");
                let brief = |c: Option<Ref<'_>>| match c {
                    None => json!([]),
                    Some(NodeOrToken::Node(n)) => json!([{"n":1,"k":n.kind().0,"w":u32::from(n.text_len())}]),
                    Some(NodeOrToken::Token(t)) => json!([{"n":0,"k":t.kind().0,"w":u32::from(t.text_len())}]),
                };
                let r = guard(|| {
                    let segs = |back: bool| {
                        let len = n.children().len() as i64;
                        let (mut i, mut s) = if back { (len, u32::from(n.text_len()) as i64) } else { (0, 0) };
                        let mut o = Segs(vec![]);
                        let mut one = |c: Ref<'_>| {
                            let (k, q, w) = match c {
                                NodeOrToken::Node(n) => (1, n.kind().0, u32::from(n.text_len()) as i64),
                                NodeOrToken::Token(t) => (0, t.kind().0, u32::from(t.text_len()) as i64),
                            };
                            if back {
                                i -= 1;
                                s -= w;
                            }
                            o.add(k, q, w, i, s, back);
                            if !back {
                                i += 1;
                                s += w;
                            }
                        };
                        if back {
                            n.children().rev().for_each(&mut one)
                        } else {
                            n.children().for_each(&mut one)
                        }
                        o.json()
                    };
                    let at: Vec<Value> = us(&e, "qs")
                        .into_iter()
                        .map(|i| json!([i, brief(n.children().nth(i)), brief(n.children().nth_back(i))]))
                        .collect();
                    (u32::from(n.text_len()), n.children().len(), segs(false), segs(true), at)
                });
                match r {
                    Ok((len, n, f, b, at)) => {
                        set(&mut e, "len", json!(len));
                        set(&mut e, "n", json!(n));
                        set(&mut e, "fwd", f);
                        set(&mut e, "back", b);
                        set(&mut e, "at", json!(at));
                    }
                    Err(()) => {
                        for f in ["len", "n", "fwd", "back", "at"] {
                            set(&mut e, f, json!(-9));
                        }
                    }
                }
            }
            "ptr" => {
                use rowan::ast::SyntaxNodePtr;
                let NodeOrToken::Node(n) = self.el::<TypA>(u(&e, "f")) else { panic!("harness: token") };
                let r = guard(|| {
                    let root = n.ancestors().last().unwrap();
                    let p = SyntaxNodePtr::<LangA>::new(&n);
                    let r = p.text_range();
                    let (q, q2) = (p.try_to_node(&root), p.to_node(&root));
                    (json!([u16::from(p.kind()), u32::from(r.start()), u32::from(r.end())]), q, q2)
                });
                match r {
                    Ok((pk, q, q2)) => {
                        set(&mut e, "pk", pk);
                        let pr = |q: rowan::SyntaxNode<LangA>| proj::<TypA>(&NodeOrToken::Node(q), v);
                        let (a, b) = (q.map(pr), pr(q2));
                        set(&mut e, "r", match a { Some(a) if a == b => json!([a]), _ => json!([]) });
                    }
                    Err(()) => {
                        set(&mut e, "pk", json!([]));
                        set(&mut e, "r", json!([]));
                    }
                }
            }
            "text" => {
                let r = with_api!(l, A => guard(|| {
                    let _u = alloc::Untag::new();
                    let t = self.view::<A>(h, &e["qs"]);
                    let mut chunks = vec![];
                    t.for_each_chunk(|c| rle_to(&mut chunks, c));
                    let mut tried = vec![];
                    let done: Result<(), ()> = t.try_for_each_chunk(|c| { rle_to(&mut tried, c); Ok(()) });
                    let find: Vec<Value> = us(&e, "fs").into_iter().map(|c| {
                        let r = t.find_char(char::from_u32(c as u32).unwrap());
                        json!([c, r.map(|x| vec![u32::from(x)]).unwrap_or_default()])
                    }).collect();
                    let has: Vec<Value> = e["fs"].as_array().unwrap().iter()
                        .map(|c| json!([c, [t.contains_char(char_of(c)) as i32]])).collect();
                    let at: Vec<Value> = us(&e, "os").into_iter().map(|o| {
                        let r = guard(|| t.char_at((o as u32).into()));
                        json!([o, r.map(|c| c.map(|c| vec![c as i64]).unwrap_or_default()).unwrap_or(vec![-9])])
                    }).collect();
                    let cmp: Vec<Value> = e["cs"].as_array().unwrap().iter().map(|c| {
                        let c = tfrom(c);
                        let s = expand(&c);
                        let b = [t == *s.as_str(), *s.as_str() == t, t == &*s];
                        json!([tjson(&c), b.map(|b| b as i32)])
                    }).collect();
                    json!({"len":u32::from(t.len()),"emp":t.is_empty() as i32,"str":tjson(&rle(&t.to_string())),
                           "fmt":tjson(&rle(&format!("{t}"))),"into":tjson(&rle(&String::from(t.clone()))),
                           "chunks":tjson(&chunks),"tried":(done.is_ok() && tried == chunks) as i32,
                           "find":find,"has":has,"at":at,"cmp":cmp})
                })).unwrap_or(json!({"len":-9,"emp":-9}));
                for (k, x) in r.as_object().unwrap() {
                    set(&mut e, k, x.clone());
                }
            }
            "textcmp" => {
                let r = with_api!(l, A => guard(|| {
                    let x = self.view::<A>(h, &e["qs"]);
                    let y = self.view::<A>(u(&e, "h2"), &e["qs2"]);
                    json!([(x == y) as i32, (y == x) as i32])
                })).unwrap_or(json!("panic"));
                set(&mut e, "r", r);
            }
            "disp" => {
                let el = self.h[h].clone().unwrap();
                let o = guard(|| {
                    let s = el.to_string();
                    let _u = alloc::Untag::new();
                    tjson(&rle(&s))
                })
                .unwrap_or(json!("panic"));
                set(&mut e, "o", o);
            }
            "drop" => {
                let x = self.h[h].take();
                let _ = guard(|| drop(x));
            }
            "dropg" => {
                let x = self.g[u(&e, "g")].take();
                let _ = guard(|| drop(x));
            }
            "cfu" | "csub" => {
                let o = with_api!(l, A => {
                    let NodeOrToken::Node(n) = self.el::<A>(h) else { panic!("harness: token") };
                    match guard(|| if a == "cfu" { A::clone_for_update(&n) } else { A::clone_subtree(&n) }) {
                        Ok(n) => {
                            let el: El<A> = NodeOrToken::Node(n);
                            let o = proj::<A>(&el, v);
                            self.store::<A>(d, Some(el));
                            o
                        }
                        Err(()) => boom(),
                    }
                });
                set(&mut e, "o", o);
            }
            "snap" => {
                let r = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| match &el {
                        NodeOrToken::Node(n) => NodeOrToken::Node(A::green_node(n)),
                        NodeOrToken::Token(t) => NodeOrToken::Token(A::green_token(t)),
                    })
                });
                self.store_green(d, r, &mut e);
            }
            "repl" => {
                let g = self.g[u(&e, "g")].clone().unwrap();
                let r = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| match (&el, g) {
                        (NodeOrToken::Node(n), NodeOrToken::Node(g)) => A::replace_node(n, g),
                        (NodeOrToken::Token(t), NodeOrToken::Token(g)) => A::replace_token(t, g),
                        _ => panic!("harness: node and token"),
                    })
                });
                self.store_green(d, r.map(NodeOrToken::Node), &mut e);
            }
            "gedit" => {
                let n = self.g[u(&e, "g")].clone().and_then(|g| g.into_node()).expect("harness: token");
                let (lo, hi) = (u(&e, "lo"), u(&e, "hi"));
                let mut xs: Vec<Green> = us(&e, "xs").iter().map(|&i| self.g[i].clone().unwrap()).collect();
                let op = e["op"].as_str().unwrap().to_string();
                let r = guard(|| match op.as_str() {
                    "replace_child" => n.replace_child(lo, xs.pop().unwrap()),
                    "insert_child" => n.insert_child(lo, xs.pop().unwrap()),
                    "remove_child" => n.remove_child(lo),
                    _ => n.splice_children(lo..hi, xs),
                });
                self.store_green(d, r.map(NodeOrToken::Node), &mut e);
            }
            "detach" => {
                let st = with_api!(l, A => { let el = self.el::<A>(h); guard(|| A::detach(&el, v)).is_ok() });
                set(&mut e, "st", json!(if st { "ok" } else { "panic" }));
            }
            "splice" => {
                let (lo, hi, ins) = (u(&e, "lo"), u(&e, "hi"), us(&e, "ins"));
                let st = with_api!(l, A => {
                    let n = self.el::<A>(h).into_node().expect("harness: token");
                    let ins: Vec<El<A>> = ins.iter().map(|&i| self.el::<A>(i)).collect();
                    guard(|| A::splice(&n, lo, hi, &mut ins.into_iter())).is_ok()
                });
                set(&mut e, "st", json!(if st { "ok" } else { "panic" }));
            }
            "loop" => {
                let op = e["op"].as_str().unwrap().to_string();
                let k = ks(&e);
                let mut n = 0u64;
                let st = with_api!(l, A => {
                    let el = self.el::<A>(h);
                    guard(|| {
                        for c in A::seq(&el, &op, &k, 0).expect("harness: no such sequence") {
                            A::detach(&c, v);
                            n += 1;
                            assert!(n < MOST);
                        }
                    }).is_ok()
                });
                set(&mut e, "n", json!(n));
                set(&mut e, "st", json!(if st { "ok" } else { "panic" }));
            }
            _ => panic!("harness: unknown event {a}"),
        }
        self.emit(e);
    }
}

