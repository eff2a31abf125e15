//! Further events: text views, pointers, the typed layer, formatting, refused calls.
use crate::api::*;
use crate::r#gen::Gen;
use crate::gv::*;
use crate::lens::Lens;
use crate::sess::*;
use crate::with_api;
use rowan::ast::{AstChildren, AstNode, AstPtr, SyntaxNodePtr, support};
use rowan::{GreenNode, Language, NodeOrToken, SyntaxKind, SyntaxText, TextRange, TextSize, api};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

thread_local! {
    static ACCEPT: RefCell<[HashSet<u16>; 2]> = RefCell::new([HashSet::new(), HashSet::new()]);
}
fn accept(i: usize, ks: &[u16]) {
    ACCEPT.with(|a| a.borrow_mut()[i] = ks.iter().copied().collect());
}

/// A typed node accepting a set of kinds chosen at run time.
pub struct Ast<L: Language, const I: usize>(api::SyntaxNode<L>, PhantomData<L>);
impl<L: Language<Kind: Into<u16>>, const I: usize> AstNode for Ast<L, I> {
    type Language = L;
    fn can_cast(kind: L::Kind) -> bool {
        tick();
        aside();
        ACCEPT.with(|a| a.borrow()[I].contains(&kind.into()))
    }
    fn cast(node: api::SyntaxNode<L>) -> Option<Self> {
        if Self::can_cast(node.kind()) { Some(Ast(node, PhantomData)) } else { None }
    }
    fn syntax(&self) -> &api::SyntaxNode<L> {
        &self.0
    }
}

fn u(e: &Value, f: &str) -> usize {
    e[f].as_u64().unwrap_or(0) as usize
}
fn us(e: &Value, f: &str) -> Vec<usize> {
    e[f].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}
fn ks(e: &Value, f: &str) -> Vec<u16> {
    us(e, f).into_iter().map(|x| x as u16).collect()
}
fn set(e: &mut Value, f: &str, v: Value) {
    e.as_object_mut().unwrap().insert(f.to_string(), v);
}
fn hash64<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn char_of(v: &Value) -> char {
    char::from_u32(v.as_u64().unwrap() as u32).unwrap()
}

/// A writer that refuses, once, what would take it beyond `cap` bytes.
pub struct Sink {
    buf: Vec<u8>,
    cap: usize,
    /// the number of the call that is refused, whatever it brings
    call: Option<usize>,
    calls: usize,
    refused: bool,
}
impl Sink {
    fn put(&mut self, b: &[u8]) -> bool {
        self.calls += 1;
        if !self.refused && (self.buf.len() + b.len() > self.cap || self.call == Some(self.calls)) {
            self.refused = true;
            return false;
        }
        self.buf.extend_from_slice(b);
        true
    }
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.put(s.as_bytes()) { Ok(()) } else { Err(std::fmt::Error) }
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.put(b) { Ok(b.len()) } else { Err(std::io::Error::other("refused")) }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

trait Typed: Api<N = api::SyntaxNode<Self::L>, T = api::SyntaxToken<Self::L>> {
    type L: Language<Kind: Into<u16>> + 'static;
    fn k(k: u16) -> <Self::L as Language>::Kind;
    fn ser(e: &El<Self>) -> serde_json::Result<String>;
    fn ser_to(e: &El<Self>, w: &mut Sink) -> bool;
    fn ser_value(e: &El<Self>) -> serde_json::Result<Value>;
    fn ser_lens(e: &El<Self>, l: &mut Lens) -> bool;
}
impl Typed for TypA {
    type L = LangA;
    fn k(k: u16) -> KindA {
        KindA(k)
    }
    fn ser(e: &El<Self>) -> serde_json::Result<String> {
        match e {
            NodeOrToken::Node(n) => serde_json::to_string(n),
            NodeOrToken::Token(t) => serde_json::to_string(t),
        }
    }
    fn ser_to(e: &El<Self>, w: &mut Sink) -> bool {
        match e {
            NodeOrToken::Node(n) => serde_json::to_writer(w, n).is_ok(),
            NodeOrToken::Token(t) => serde_json::to_writer(w, t).is_ok(),
        }
    }
    fn ser_value(e: &El<Self>) -> serde_json::Result<Value> {
        match e {
            NodeOrToken::Node(n) => serde_json::to_value(n),
            NodeOrToken::Token(t) => serde_json::to_value(t),
        }
    }
    fn ser_lens(e: &El<Self>, l: &mut Lens) -> bool {
        use serde::Serialize;
        match e {
            NodeOrToken::Node(n) => n.serialize(l).is_ok(),
            NodeOrToken::Token(t) => t.serialize(l).is_ok(),
        }
    }
}
impl Typed for TypB {
    type L = LangB;
    fn k(k: u16) -> KindB {
        KindB(k)
    }
    fn ser(e: &El<Self>) -> serde_json::Result<String> {
        match e {
            NodeOrToken::Node(n) => serde_json::to_string(n),
            NodeOrToken::Token(t) => serde_json::to_string(t),
        }
    }
    fn ser_to(e: &El<Self>, w: &mut Sink) -> bool {
        match e {
            NodeOrToken::Node(n) => serde_json::to_writer(w, n).is_ok(),
            NodeOrToken::Token(t) => serde_json::to_writer(w, t).is_ok(),
        }
    }
    fn ser_value(e: &El<Self>) -> serde_json::Result<Value> {
        match e {
            NodeOrToken::Node(n) => serde_json::to_value(n),
            NodeOrToken::Token(t) => serde_json::to_value(t),
        }
    }
    fn ser_lens(e: &El<Self>, l: &mut Lens) -> bool {
        use serde::Serialize;
        match e {
            NodeOrToken::Node(n) => n.serialize(l).is_ok(),
            NodeOrToken::Token(t) => t.serialize(l).is_ok(),
        }
    }
}
macro_rules! with_typed {
    ($lg:expr, $A:ident => $body:expr) => {
        if $lg == 1 {
            type $A = TypA;
            $body
        } else {
            type $A = TypB;
            $body
        }
    };
}

fn view(n: SyntaxText, qs: &[Value]) -> SyntaxText {
    let mut t = n;
    for q in qs {
        let (s, e) = (TextSize::from(u(q, "s") as u32), TextSize::from(u(q, "e") as u32));
        t = match q["f"].as_str().unwrap() {
            "range" => t.slice(s..e),
            "trange" => t.slice(TextRange::new(s, e)),
            "from" => t.slice(s..),
            "to" => t.slice(..e),
            _ => t.slice(..),
        };
    }
    t
}

fn flat_json(v: &Value, d: usize, out: &mut Vec<Value>) {
    let bad = || json!({"n":-9,"k":[],"d":0,"s":0,"e":0,"t":[]});
    let Some(o) = v.as_object() else {
        out.push(bad());
        return;
    };
    let n = o.contains_key("children") as usize;
    let range = o.get("text_range").and_then(|r| r.as_array()).filter(|r| r.len() == 2);
    let kind = o.get("kind").and_then(|k| k.as_str());
    let (Some(r), Some(k), 3) = (range, kind, o.len()) else {
        out.push(bad());
        return;
    };
    let t = match o.get("text").and_then(|t| t.as_str()) {
        Some(t) => cps(t),
        None if n == 1 => json!([]),
        None => json!([-9]),
    };
    out.push(json!({"n":n,"k":cps(k),"d":d,"s":r[0],"e":r[1],"t":t}));
    if let Some(c) = o.get("children") {
        match c.as_array() {
            Some(c) => c.iter().for_each(|c| flat_json(c, d + 1, out)),
            None => out.push(bad()),
        }
    }
}

fn s(r: Result<String, ()>) -> Value {
    match r {
        Ok(s) => cps(&s),
        Err(()) => json!([-9]),
    }
}

fn ptr_event<A: Typed>(s: &mut Sess, e: &mut Value) {
    let v = u(e, "v") as u8;
    let f = A::up(s.h[u(e, "f")].clone().expect("harness: free handle")).into_node().unwrap();
    let f2 = A::up(s.h[u(e, "f2")].clone().expect("harness: free handle")).into_node().unwrap();
    let root = A::up(s.h[u(e, "h")].clone().expect("harness: free handle")).into_node().unwrap();
    accept(0, &ks(e, "K"));
    accept(1, &ks(e, "K2"));
    let node_proj = |n: Option<A::N>| match n {
        Some(n) => json!([proj::<A>(&NodeOrToken::Node(n), v)]),
        None => json!([]),
    };
    let boom = || json!([{"n":-9,"k":0,"s":0,"e":0,"p":[]}]);
    let p = guard(|| SyntaxNodePtr::<A::L>::new(&f));
    let Ok(p) = p else {
        set(e, "st", json!("panic"));
        return;
    };
    set(e, "st", json!("ok"));
    let k: u16 = p.kind().into();
    let r = p.text_range();
    set(e, "pk", json!([k, u32::from(r.start()), u32::from(r.end())]));
    set(e, "r", guard(|| p.try_to_node(&root)).map(node_proj).unwrap_or_else(|_| boom()));
    set(e, "rn", guard(|| Some(p.to_node(&root))).map(node_proj).unwrap_or_else(|_| boom()));
    let p2 = guard(|| SyntaxNodePtr::<A::L>::new(&f2));
    let teq = guard(|| {
        let (Ok(p2), Some(q)) = (&p2, p.cast::<Ast<A::L, 0>>()) else { return json!([]) };
        match p2.cast::<Ast<A::L, 0>>() {
            Some(q2) => json!([(q == q2) as i32, (hash64(&q) == hash64(&q2)) as i32]),
            None => json!([]),
        }
    });
    set(e, "teq", teq.unwrap_or(json!([-9, -9])));
    set(e, "eq", match p2 {
        Ok(p2) => {
            let eq = guard(|| p == p2).map(|b| b as i32).unwrap_or(-9);
            let h = guard(|| hash64(&p) == hash64(&p2)).map(|b| b as i32).unwrap_or(-9);
            json!([eq, h])
        }
        Err(()) => json!([]),
    });
    // typed pointers: by casting the pointer, by casting a typed pointer again, and from the node
    let c0 = guard(|| p.cast::<Ast<A::L, 0>>());
    let mut casts = vec![];
    match &c0 {
        Ok(c) => casts.push(c.is_some() as i32),
        Err(()) => casts.push(-9),
    }
    let mut typed: Vec<(Result<Option<Value>, ()>, Value, Value)> = vec![];
    let mut typed_r = vec![];
    let describe0 = |q: &AstPtr<Ast<A::L, 0>>| {
        let r = guard(|| q.try_to_node(&root)).map(|n| node_proj(n.map(|n| n.0))).unwrap_or_else(|_| boom());
        let rn = guard(|| Some(q.to_node(&root))).map(|n| node_proj(n.map(|n| n.0))).unwrap_or_else(|_| boom());
        let same = guard(|| {
            let raw: SyntaxNodePtr<A::L> = q.clone().into();
            q.syntax_node_ptr() == p && raw == p && q.clone() == *q && hash64(&q.clone()) == hash64(q)
        })
        .map(|b| b as i32)
        .unwrap_or(-9);
        json!([r, rn, same])
    };
    if let Ok(Some(q)) = &c0 {
        typed_r.push(describe0(q));
        casts.push(guard(|| q.clone().cast::<Ast<A::L, 1>>().is_some()).map(|b| b as i32).unwrap_or(-9));
    }
    if let Some(n) = guard(|| Ast::<A::L, 0>::cast(f.clone())).ok().flatten() {
        match guard(|| AstPtr::new(&n)) {
            Ok(q) => typed_r.push(describe0(&q)),
            Err(()) => typed_r.push(json!([boom(), boom(), -9])),
        }
    }
    typed.clear();
    set(e, "casts", json!(casts));
    set(e, "tr", json!(typed_r));
}

fn ast_event<A: Typed>(s: &mut Sess, e: &mut Value) {
    let v = u(e, "v") as u8;
    let n = A::up(s.h[u(e, "h")].clone().expect("harness: free handle")).into_node().unwrap();
    accept(0, &ks(e, "K"));
    let pr = |n: A::N| proj::<A>(&NodeOrToken::Node(n), v);
    let boom = || json!({"n":-9,"k":0,"s":0,"e":0,"p":[]});
    let opt = |r: Result<Option<A::N>, ()>| match r {
        Ok(Some(n)) => json!([pr(n)]),
        Ok(None) => json!([]),
        Err(()) => json!([boom()]),
    };
    set(e, "child", opt(guard(|| support::child::<Ast<A::L, 0>>(&n).map(|x| x.0))));
    // the children, with the iterator cloned after a few steps
    let at = u(e, "at");
    let mut all = vec![];
    let mut rest = vec![];
    let r = guard(|| {
        let mut it: AstChildren<Ast<A::L, 0>> = support::children(&n);
        let mut i = 0;
        let mut copy = None;
        loop {
            if i == at {
                copy = Some(clone_children(&it));
            }
            match it.next() {
                Some(x) => all.push(pr(x.0)),
                None => break,
            }
            i += 1;
            assert!(i < 20_000);
        }
        assert!(it.next().is_none());
        if let Some(c) = copy {
            for x in c.take(20_000) {
                rest.push(pr(x.0));
            }
        }
    });
    if r.is_err() {
        all.push(boom());
    }
    set(e, "kids", json!(all));
    set(e, "rest", json!(rest));
    let k = u(e, "k") as u16;
    let tok = guard(|| support::token::<A::L>(&n, A::k(k)));
    set(e, "tok", match tok {
        Ok(Some(t)) => json!([proj::<A>(&NodeOrToken::Token(t), v)]),
        Ok(None) => json!([]),
        Err(()) => json!([boom()]),
    });
    set(e, "cast", opt(guard(|| Ast::<A::L, 0>::cast(n.clone()).map(|x| x.syntax().clone()))));
}
fn clone_children<L: Language<Kind: Into<u16>>>(it: &AstChildren<Ast<L, 0>>) -> AstChildren<Ast<L, 0>> {
    it.clone()
}
impl<L: Language, const I: usize> Clone for Ast<L, I> {
    fn clone(&self) -> Self {
        Ast(self.0.clone(), PhantomData)
    }
}

fn fmt_event<A: Api>(s: &mut Sess, e: &mut Value) {
    let el: El<A> = A::up(s.h[u(e, "h")].clone().expect("harness: free handle"));
    let node = matches!(el, NodeOrToken::Node(_));
    set(e, "disp", self::s(guard(|| match &el {
        NodeOrToken::Node(n) => n.to_string(),
        NodeOrToken::Token(t) => t.to_string(),
    })));
    set(e, "eldisp", self::s(guard(|| format!("{}", el))));
    let dbg = guard(|| match &el {
        NodeOrToken::Node(n) => format!("{n:?}"),
        NodeOrToken::Token(t) => format!("{t:?}"),
    });
    let pretty = guard(|| match &el {
        NodeOrToken::Node(n) => format!("{n:#?}"),
        NodeOrToken::Token(t) => format!("{t:#?}"),
    });
    // the raw layer prints addresses for tokens
    let dbg = if A::LANG == 0 && !node { dbg.map(|_| String::new()) } else { dbg };
    let pretty = if A::LANG == 0 { pretty.map(|_| String::new()) } else { pretty };
    set(e, "dbg", self::s(dbg));
    set(e, "pretty", self::s(pretty));
}

fn sink_fmt<A: Api>(el: &El<A>, f: &str, w: &mut Sink) -> bool {
    use std::fmt::Write;
    match (el, f) {
        (NodeOrToken::Node(n), "disp") => write!(w, "{n}"),
        (NodeOrToken::Token(t), "disp") => write!(w, "{t}"),
        (_, "eldisp") => write!(w, "{el}"),
        (NodeOrToken::Node(n), "dbg") => write!(w, "{n:?}"),
        (NodeOrToken::Token(t), "dbg") => write!(w, "{t:?}"),
        (NodeOrToken::Node(n), "pretty") => write!(w, "{n:#?}"),
        (NodeOrToken::Token(t), "pretty") => write!(w, "{t:#?}"),
        (NodeOrToken::Node(n), _) => write!(w, "{}", A::node_text(n)),
        (NodeOrToken::Token(_), _) => panic!("harness: text of a token"),
    }
    .is_ok()
}
/// The operations on nodes during which the library calls code of its client.
pub const CALLS: &[&str] = &[
    "first_child_by_kind", "first_child_or_token_by_kind", "next_sibling_by_kind", "next_sibling_or_token_by_kind",
    "children_by_kind", "children_with_tokens_by_kind", "children_by_kind", "children_with_tokens_by_kind", "ast_child",
    "ast_children", "chunks", "find", "disp", "dbg", "pretty", "ser", "kind",
];
thread_local! {
    /// What was written, or given to a closure.
    static SEEN: RefCell<Vec<u8>> = RefCell::default();
}
fn seen(b: &[u8]) {
    tick();
    aside();
    // what was given is still there
    SEEN.with(|s| s.borrow_mut().extend_from_slice(b));
}
/// Elements, and whether they could be had.
type Ask = (Vec<Value>, bool);
fn asked<A: Api>(v: u8, f: impl FnOnce() -> Vec<El<A>>) -> Ask {
    match guard(f) {
        Ok(xs) => {
            let rs = quietly(|| xs.iter().map(|x| proj::<A>(x, v)).collect());
            let _ = guard(|| drop(xs));
            (rs, true)
        }
        Err(()) => (vec![panic_proj()], false),
    }
}
fn typed_call<A: Typed>(el: El<A>, op: &str, k: &[u16], v: u8) -> Ask {
    accept(0, k);
    if op == "ser" {
        let r = asked::<A>(v, || {
            match &el {
                NodeOrToken::Node(n) => drop(serde_json::to_writer(Bomb, n)),
                NodeOrToken::Token(t) => drop(serde_json::to_writer(Bomb, t)),
            }
            vec![]
        });
        let _ = guard(|| drop(el));
        return r;
    }
    let n = el.into_node().expect("harness: token");
    asked::<A>(v, || {
        if op == "ast_child" {
            support::child::<Ast<A::L, 0>>(&n).map(|x| NodeOrToken::Node(x.0)).into_iter().collect()
        } else {
            let it: AstChildren<Ast<A::L, 0>> = support::children(&n);
            drop(n);
            it.take(20_000).map(|x| NodeOrToken::Node(x.0)).collect()
        }
    })
}
/// An operation during which the library calls code of its client: the elements it gives.
pub fn call_back(l: u8, raw: RawEl, op: &str, k: &[u16], v: u8) -> Ask {
    SEEN.with(|s| s.take());
    if op == "ser" || op.starts_with("ast_") {
        return with_typed!(l, A => typed_call::<A>(A::up(raw), op, k, v));
    }
    with_api!(l, A => {
        let el: El<A> = A::up(raw);
        asked::<A>(v, || {
            match (op, el) {
                ("kind", el) => drop(A::kind(&el, 0)),
                ("chunks", NodeOrToken::Node(n)) => {
                    let t = A::node_text(&n);
                    drop(n);
                    t.for_each_chunk(|c| seen(c.as_bytes()))
                }
                ("find", NodeOrToken::Node(n)) => {
                    let t = A::node_text(&n);
                    drop(n);
                    let _ = t.try_fold_chunks(0, |a, c| {
                        seen(c.as_bytes());
                        Ok::<_, ()>(a + c.len())
                    });
                }
                ("chunks" | "find", _) => {}
                ("disp", NodeOrToken::Node(n)) => drop(write!(Bomb, "{n}")),
                ("disp", NodeOrToken::Token(t)) => drop(write!(Bomb, "{t}")),
                ("dbg", NodeOrToken::Node(n)) => drop(write!(Bomb, "{n:?}")),
                ("dbg", NodeOrToken::Token(t)) => drop(write!(Bomb, "{t:?}")),
                ("pretty", NodeOrToken::Node(n)) => drop(write!(Bomb, "{n:#?}")),
                ("pretty", NodeOrToken::Token(t)) => drop(write!(Bomb, "{t:#?}")),
                (op, NodeOrToken::Node(n)) if op.starts_with("children") => {
                    return A::own_by_kind(n, op, k).take(20_000).collect();
                }
                (op, el) => return A::nav(&el, op, k, v).into_iter().collect(),
            }
            vec![]
        })
    })
}
pub fn what_was_seen() -> Value {
    let b = SEEN.with(|s| s.take());
    match std::str::from_utf8(&b) {
        Ok(t) => cps(t),
        Err(_) => json!([-9]),
    }
}
/// What serialising gives when nothing happens meanwhile.
pub fn serialised(l: u8, raw: RawEl) -> Value {
    with_typed!(l, A => {
        let el: El<A> = A::up(raw);
        let r = cps(&guard(|| <A as Typed>::ser(&el).unwrap_or_default()).unwrap_or_default());
        let _ = guard(|| drop(el));
        r
    })
}
/// A writer that may panic, or do something else.
struct Bomb;
impl std::fmt::Write for Bomb {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        seen(s.as_bytes());
        Ok(())
    }
}
impl std::io::Write for Bomb {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        seen(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Some form of an element, written to something that may refuse it.
fn sink_event(s: &mut Sess, e: &mut Value, l: u8) {
    let f = e["f"].as_str().unwrap().to_string();
    let cap = u(e, "cap");
    let call = u(e, "call");
    let mut w = Sink { buf: vec![], cap, call: (call > 0).then_some(call), calls: 0, refused: false };
    let mut whole = json!([]);
    let r = if f == "green" {
        use std::fmt::Write;
        match green_of(s, u(e, "g")) {
            NodeOrToken::Node(n) => guard(|| write!(w, "{n}").is_ok()),
            NodeOrToken::Token(t) => guard(|| write!(w, "{t}").is_ok()),
        }
    } else if f == "ser" {
        with_typed!(l, A => {
            let el: El<A> = A::up(s.h[u(e, "h")].clone().expect("harness: free handle"));
            whole = cps(&guard(|| <A as Typed>::ser(&el).unwrap_or_default()).unwrap_or_default());
            guard(|| <A as Typed>::ser_to(&el, &mut w))
        })
    } else {
        with_api!(l, A => {
            let el: El<A> = A::up(s.h[u(e, "h")].clone().expect("harness: free handle"));
            guard(|| sink_fmt::<A>(&el, &f, &mut w))
        })
    };
    set(e, "w", whole);
    set(e, "rf", json!(w.refused as i32));
    set(e, "st", json!(match r {
        Ok(true) => "ok",
        Ok(false) => "err",
        Err(()) => "panic",
    }));
    set(e, "o", match std::str::from_utf8(&w.buf) {
        Ok(t) => cps(t),
        Err(_) => json!([-9]),
    });
}

fn text_event(s: &mut Sess, e: &mut Value) {
    let l = u(e, "l") as u8;
    let h = u(e, "h");
    let qs = e["qs"].as_array().unwrap().clone();
    let raw = s.h[h].clone().expect("harness: free handle");
    let t = with_api!(l, A => {
        let n = A::up(raw).into_node().expect("harness: token");
        guard(|| view(A::node_text(&n), &qs))
    });
    let Ok(t) = t else {
        set(e, "st", json!("panic"));
        return;
    };
    set(e, "st", json!("ok"));
    let num = |r: Result<u32, ()>| r.map(|x| json!(x)).unwrap_or(json!(-9));
    let b = |r: Result<bool, ()>| r.map(|x| json!(x as u8)).unwrap_or(json!(-9));
    set(e, "len", num(guard(|| t.len().into())));
    set(e, "emp", b(guard(|| t.is_empty())));
    set(e, "str", self::s(guard(|| t.to_string())));
    set(e, "fmt", self::s(guard(|| format!("{t}"))));
    set(e, "dbg", self::s(guard(|| format!("{t:?}"))));
    set(e, "into", self::s(guard(|| String::from(t.clone()))));
    let mut chunks = vec![];
    let r = guard(|| t.for_each_chunk(|c| chunks.push(cps(c))));
    if r.is_err() {
        chunks.push(json!([-9]));
    }
    set(e, "chunks", json!(chunks));
    let mut tried = vec![];
    let r = guard(|| {
        t.try_for_each_chunk(|c| {
            tried.push(cps(c));
            Ok::<(), ()>(())
        })
    });
    if r != Ok(Ok(())) {
        tried.push(json!([-9]));
    }
    set(e, "tried", json!(tried));
    // a fold that stops early
    let stop = u(e, "stop");
    let mut part = vec![];
    let r = guard(|| {
        t.try_fold_chunks(0usize, |n, c| {
            if n == stop {
                return Err(n);
            }
            part.push(cps(c));
            Ok(n + 1)
        })
    });
    set(e, "fold", match r {
        Ok(Ok(n)) => json!([1, n]),
        Ok(Err(n)) => json!([0, n]),
        Err(()) => json!([-9, 0]),
    });
    set(e, "part", json!(part));
    for f in ["find", "has"] {
        let mut rs = vec![];
        for q in e[f].as_array().unwrap().clone() {
            let c = char_of(&q[0]);
            let r = if f == "find" {
                match guard(|| t.find_char(c)) {
                    Ok(Some(x)) => json!([u32::from(x)]),
                    Ok(None) => json!([]),
                    Err(()) => json!([-9]),
                }
            } else {
                match guard(|| t.contains_char(c)) {
                    Ok(x) => json!([x as u8]),
                    Err(()) => json!([-9]),
                }
            };
            rs.push(json!([q[0], r]));
        }
        set(e, f, json!(rs));
    }
    let mut rs = vec![];
    for q in e["at"].as_array().unwrap().clone() {
        let o = q[0].as_u64().unwrap() as u32;
        let r = match guard(|| t.char_at(o.into())) {
            Ok(Some(c)) => json!([c as u32]),
            Ok(None) => json!([]),
            Err(()) => json!([-9]),
        };
        rs.push(json!([o, r]));
    }
    set(e, "at", json!(rs));
    let mut rs = vec![];
    for q in e["cmp"].as_array().unwrap().clone() {
        let x = from_cps(&q[0]);
        let x: &str = &x;
        let r = guard(|| vec![t == *x, *x == t, t == x, x == t]);
        let r = r.map(|r| json!(r.iter().map(|&b| b as u8).collect::<Vec<_>>())).unwrap_or(json!([-9]));
        rs.push(json!([q[0], r]));
    }
    set(e, "cmp", json!(rs));
}

fn green_of(s: &Sess, i: usize) -> Green {
    s.g[i].clone().expect("harness: free green slot")
}

/// An iterator that announces a wrong length.
struct Liar(std::vec::IntoIter<Green>, usize);
impl Iterator for Liar {
    type Item = Green;
    fn next(&mut self) -> Option<Green> {
        let r = self.0.next();
        self.1 = self.1.saturating_sub(1);
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, Some(self.1))
    }
}
impl ExactSizeIterator for Liar {
    fn len(&self) -> usize {
        self.1
    }
}

pub fn exec(s: &mut Sess, a: &str, e: &mut Value) {
    let l = u(e, "l") as u8;
    match a {
        "note" => {}
        "text" => text_event(s, e),
        "textcmp" => {
            let (h, h2) = (u(e, "h"), u(e, "h2"));
            let (x, y) = (
                s.h[h].clone().expect("harness: free handle").into_node().unwrap(),
                s.h[h2].clone().expect("harness: free handle").into_node().unwrap(),
            );
            let (q1, q2) = (e["qs"].as_array().unwrap().clone(), e["qs2"].as_array().unwrap().clone());
            let r = guard(|| {
                let (a, b) = (view(x.text(), &q1), view(y.text(), &q2));
                vec![(a == b) as i32, (b == a) as i32]
            })
            .unwrap_or(vec![-9]);
            set(e, "r", json!(r));
        }
        "ptr" => with_typed!(l, A => ptr_event::<A>(s, e)),
        "ast" => with_typed!(l, A => ast_event::<A>(s, e)),
        "acfu" | "acsub" => {
            let (h, d) = (u(e, "h"), u(e, "d"));
            let st = with_typed!(l, A => {
                let n = A::up(s.h[h].clone().expect("harness: free handle")).into_node().unwrap();
                let k: u16 = n.kind().into();
                accept(0, &[k]);
                let r = guard(|| {
                    let n = Ast::<<A as Typed>::L, 0>::cast(n).unwrap();
                    if a == "acfu" { n.clone_for_update() } else { n.clone_subtree() }
                });
                match r {
                    Ok(n) => {
                        let raw: RawEl = A::down(NodeOrToken::Node(n.syntax().clone()));
                        let _ = guard(|| drop(n));
                        let old = s.h[d].replace(raw);
                        let _ = guard(|| drop(old));
                        "ok"
                    }
                    Err(()) => "panic",
                }
            });
            set(e, "st", json!(st));
        }
        "fmt" => with_api!(l, A => fmt_event::<A>(s, e)),
        "sink" => sink_event(s, e, l),
        "ser" => {
            let (at, max) = (e["at"].as_u64().map(|x| x as usize), 3_000);
            let (o, vo, lens, st) = with_typed!(l, A => {
                let el: El<A> = A::up(s.h[u(e, "h")].clone().expect("harness: free handle"));
                let flat = |v: Option<Value>| {
                    let mut out = vec![];
                    flat_json(&v.unwrap_or(Value::Null), 0, &mut out);
                    json!(out)
                };
                let js = guard(|| <A as Typed>::ser(&el)).ok().and_then(|js| crate::run::parse(&js.ok()?).ok());
                let v = guard(|| <A as Typed>::ser_value(&el)).ok().and_then(|v| v.ok());
                let mut all = Lens::new(None);
                let _ = guard(|| <A as Typed>::ser_lens(&el, &mut all));
                let mut some = Lens::new(at);
                let ok = guard(|| <A as Typed>::ser_lens(&el, &mut some)).map(|b| b as i32).unwrap_or(-9);
                all.all.sort();
                all.all.dedup();
                all.all.truncate(max);
                (flat(js), flat(v), all.all, json!([some.refused as i32, ok]))
            });
            set(e, "o", o);
            set(e, "vo", vo);
            set(e, "lens", json!(lens));
            set(e, "st", st);
        }
        "gfmt" => {
            let g = green_of(s, u(e, "g"));
            set(e, "disp", self::s(guard(|| match &g {
                NodeOrToken::Node(n) => n.to_string(),
                NodeOrToken::Token(t) => t.to_string(),
            })));
            set(e, "ddisp", self::s(guard(|| match &g {
                NodeOrToken::Node(n) => (**n).to_string(),
                NodeOrToken::Token(t) => (**t).to_string(),
            })));
            set(e, "dbg", self::s(guard(|| match &g {
                NodeOrToken::Node(n) => format!("{n:?}"),
                NodeOrToken::Token(t) => format!("{t:?}"),
            })));
            set(e, "ddbg", self::s(guard(|| match &g {
                NodeOrToken::Node(n) => format!("{:?}", **n),
                NodeOrToken::Token(t) => format!("{:?}", **t),
            })));
            set(e, "len", guard(|| match &g {
                NodeOrToken::Node(n) => json!(u32::from(n.text_len())),
                NodeOrToken::Token(t) => json!(u32::from(t.text_len())),
            }).unwrap_or(json!(-9)));
            // through the element types, owned and borrowed, made in different ways
            set(e, "el", guard(|| {
                let own: Green = match g.clone() {
                    NodeOrToken::Node(n) => n.into(),
                    NodeOrToken::Token(t) => t.into(),
                };
                let cow: Green = match &g {
                    NodeOrToken::Node(n) => std::borrow::Cow::Borrowed(&**n).into(),
                    NodeOrToken::Token(t) => t.clone().into(),
                };
                let r: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData> = match &g {
                    NodeOrToken::Node(n) => n.into(),
                    NodeOrToken::Token(t) => t.into(),
                };
                let b: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData> = match &g {
                    NodeOrToken::Node(n) => NodeOrToken::Node(std::borrow::Borrow::borrow(n)),
                    NodeOrToken::Token(t) => NodeOrToken::Token(std::borrow::Borrow::borrow(t)),
                };
                let again = r.to_owned();
                let len = |x: rowan::TextSize| u32::from(x);
                json!([
                    [own.kind().0, len(own.text_len())],
                    [cow.kind().0, len(cow.text_len())],
                    [r.kind().0, len(r.text_len())],
                    [b.kind().0, len(b.text_len())],
                    [again.kind().0, len(again.text_len())],
                    [(own == cow) as u8, (again == g) as u8],
                ])
            }).unwrap_or(json!([])));
        }
        // equality and hashing of green elements
        "geqs" => {
            let live: Vec<usize> = (1..=NG).filter(|&i| s.g[i].is_some()).collect();
            let mut rs = vec![];
            for &i in &live {
                for &j in &live {
                    let (x, y) = (green_of(s, i), green_of(s, j));
                    let r = guard(|| match (&x, &y) {
                        (NodeOrToken::Node(a), NodeOrToken::Node(b)) => {
                            assert!((**a == **b) == (a == b));
                            (a == b, hash64(a) == hash64(b))
                        }
                        (NodeOrToken::Token(a), NodeOrToken::Token(b)) => {
                            assert!((**a == **b) == (a == b));
                            (a == b, hash64(a) == hash64(b))
                        }
                        _ => (x == y, hash64(&x) == hash64(&y)),
                    });
                    let (eq, hq) = r.map(|(a, b)| (a as i32, b as i32)).unwrap_or((-9, -9));
                    rs.push(json!({"i":i,"j":j,"eq":eq,"hq":hq}));
                }
            }
            set(e, "rs", json!(rs));
        }
        // the children of a green node from both ends; steps: 0 next, 1 next_back, 10+i nth(i),
        // 100+i nth_back(i), and lengths in between
        "gkids" => {
            let g = green_of(s, u(e, "g")).into_node().expect("harness: token");
            let steps = us(e, "steps");
            let mut rs: Vec<Value> = vec![];
            let r = guard(|| {
                let kid = |c: NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>| Gv::read(c).json();
                let mut it = g.children();
                for st in &steps {
                    let c = match st {
                        0 => it.next(),
                        1 => it.next_back(),
                        10..100 => it.nth(st - 10),
                        _ => it.nth_back(st - 100),
                    };
                    let v = match c {
                        Some(c) => json!([kid(c)]),
                        None => json!([]),
                    };
                    rs.push(json!([v, it.len()]));
                }
                let count = it.clone().count();
                let last = it.clone().last().map(|c| json!([kid(c)])).unwrap_or(json!([]));
                let fwd: Vec<Value> = it.clone().fold(vec![], |mut a, c| { a.push(kid(c)); a });
                let back: Vec<Value> = if steps.len() % 2 == 0 {
                    it.rev().map(kid).collect()
                } else {
                    it.rfold(vec![], |mut a, c| { a.push(kid(c)); a })
                };
                (count, last, fwd, back)
            });
            let (count, last, fwd, back) = r.unwrap_or((99999, json!([]), vec![], vec![]));
            set(e, "rs", json!(rs));
            set(e, "count", json!(count));
            set(e, "last", last);
            set(e, "fwd", json!(fwd));
            set(e, "back", json!(back));
        }
        // a child list that announces another length than it has
        // client code panics when the library calls it for the n-th time
        "boom" => {
            let op = e["op"].as_str().unwrap().to_string();
            let (n, k, v) = (u(e, "n"), ks(e, "K"), u(e, "v") as u8);
            let (lo, hi) = (u(e, "lo"), u(e, "hi"));
            let xs: Vec<Green> = us(e, "xs").into_iter().map(|i| green_of(s, i)).collect();
            let (mut whole, mut elems) = (json!([]), vec![]);
            let (ok, did) = if matches!(op.as_str(), "gnew" | "gsplice" | "gfmt") {
                SEEN.with(|s| s.take());
                let g = green_of(s, u(e, "g"));
                with_boom(n, || {
                    guard(|| match &g {
                        NodeOrToken::Node(g) if op == "gsplice" => {
                            drop(g.splice_children(lo..hi, xs.into_iter().inspect(|_| tick())))
                        }
                        _ if op == "gnew" => drop(GreenNode::new(SyntaxKind(7), xs.into_iter().inspect(|_| tick()))),
                        g => drop(write!(Bomb, "{g}")),
                    })
                    .is_ok()
                })
            } else {
                let raw = s.h[u(e, "h")].clone().expect("harness: free handle");
                if op == "ser" {
                    whole = serialised(l, raw.clone());
                }
                let ((rs, ok), did) = with_boom(n, || call_back(l, raw, &op, &k, v));
                elems = rs;
                (ok, did)
            };
            let w = what_was_seen();
            set(e, "rs", json!(elems));
            set(e, "w", w);
            set(e, "z", whole);
            set(e, "did", json!(did as u8));
            set(e, "st", json!(if ok { "ok" } else { "panic" }));
        }
        "lie" => {
            let xs: Vec<Green> = us(e, "xs").into_iter().map(|i| green_of(s, i)).collect();
            let ann = u(e, "ann");
            let r = guard(|| GreenNode::new(SyntaxKind(u(e, "k") as u16), Liar(xs.into_iter(), ann)));
            set(e, "st", json!(if r.is_ok() { "ok" } else { "panic" }));
            let _ = guard(|| drop(r));
        }
        "gbad" => {
            let g = green_of(s, u(e, "g")).into_node().expect("harness: token");
            let xs: Vec<Green> = us(e, "xs").into_iter().map(|i| green_of(s, i)).collect();
            let (lo, hi) = (u(e, "lo"), u(e, "hi"));
            let op = e["op"].as_str().unwrap().to_string();
            let r = guard(|| {
                let mut xs = xs;
                match op.as_str() {
                    "insert_child" => g.insert_child(lo, xs.pop().unwrap()),
                    "remove_child" => g.remove_child(lo),
                    #[allow(clippy::reversed_empty_ranges)]
                    _ => g.splice_children(lo..hi, xs),
                }
            });
            set(e, "st", json!(if r.is_ok() { "ok" } else { "panic" }));
            let _ = guard(|| drop(r));
        }
        _ => panic!("harness: no such event {a}"),
    }
}

impl Gen {
    fn bounds(&mut self, h: usize) -> Vec<usize> {
        let t = match &self.s.h[h] {
            Some(NodeOrToken::Node(n)) => guard(|| Gv::read(NodeOrToken::Node(&n.green())).text()).unwrap_or_default(),
            _ => String::new(),
        };
        let mut b: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
        b.push(t.len());
        b
    }
    fn text_of(&self, h: usize) -> String {
        match &self.s.h[h] {
            Some(NodeOrToken::Node(n)) => guard(|| Gv::read(NodeOrToken::Node(&n.green())).text()).unwrap_or_default(),
            _ => String::new(),
        }
    }
    /// A chain of slices; the boundaries of the resulting view, relative to it.
    fn slices(&mut self, h: usize, bad: bool) -> (Vec<Value>, Vec<usize>) {
        let mut b = self.bounds(h);
        let mut qs = vec![];
        for _ in 0..*self.r.pick(&[0, 0, 1, 1, 1, 2, 3]) {
            let i = self.r.below(b.len());
            let j = self.r.range(i, b.len() - 1);
            let f = *self.r.pick(&["range", "trange", "from", "to", "full"]);
            let (i, j) = match f {
                "from" => (i, b.len() - 1),
                "to" => (0, j),
                "full" => (0, b.len() - 1),
                _ => (i, j),
            };
            qs.push(json!({"f":f,"s":b[i],"e":b[j]}));
            let base = b[i];
            b = b[i..=j].iter().map(|x| x - base).collect();
        }
        if bad {
            let n = *b.last().unwrap();
            let over = n + self.r.range(1, 3);
            qs.push(match self.r.below(4) {
                0 => json!({"f":"range","s":0,"e":over}),
                1 => json!({"f":"from","s":over,"e":0}),
                2 => json!({"f":"to","s":0,"e":over}),
                _ if b.len() > 1 => json!({"f":"range","s":n,"e":0}),
                _ => json!({"f":"trange","s":over,"e":over}),
            });
        }
        (qs, b)
    }
}

pub fn generate(g: &mut Gen, name: &str, l: usize, v: usize) {
    let lt = 1 + g.r.below(2);
    match name {
        "text" => {
            let Some(h) = g.pick_h(|g, h| g.is_node(h)) else { return };
            // slices outside a view are refused
            let bad = g.r.chance(1, 16);
            let (qs, b) = g.slices(h, bad);
            let full = g.text_of(h);
            let mut pool: Vec<char> = full.chars().collect();
            pool.extend(['a', 'q', '日', 'é']);
            let chars: Vec<Value> = (0..4).map(|_| json!([*g.r.pick(&pool) as u32])).collect();
            let n = *b.last().unwrap();
            let mut at: Vec<Value> = vec![json!([0]), json!([n]), json!([n + 1])];
            for _ in 0..4 {
                at.push(json!([*g.r.pick(&b)]));
            }
            // strings to compare with: the view itself, near misses, pieces, nothing
            let t: String = full.clone();
            let raw = match &g.s.h[h] {
                Some(NodeOrToken::Node(n)) => guard(|| view(n.text(), &qs).to_string()).unwrap_or(t),
                _ => t,
            };
            let mut cmp = vec![json!([cps(&raw)]), json!([[]])];
            let mut longer = raw.clone();
            longer.push('a');
            cmp.push(json!([cps(&longer)]));
            if !raw.is_empty() {
                let cs: Vec<char> = raw.chars().collect();
                cmp.push(json!([cps(&cs[..cs.len() - 1].iter().collect::<String>())]));
                let i = g.r.below(cs.len());
                let mut d = cs.clone();
                d[i] = if d[i] == 'z' { 'y' } else { 'z' };
                cmp.push(json!([cps(&d.iter().collect::<String>())]));
                cmp.push(json!([cps(&cs[1..].iter().collect::<String>())]));
            }
            let stop = g.r.below(5);
            g.s.exec(&json!({"a":"text","h":h,"l":l,"qs":qs,"stop":stop,"find":chars,"has":chars,"at":at,"cmp":cmp}));
        }
        "textcmp" => {
            let Some(h) = g.pick_h(|g, h| g.is_node(h)) else { return };
            let Some(h2) = g.pick_h(|g, h| g.is_node(h)) else { return };
            let (qs, b1) = g.slices(h, false);
            let (mut qs2, _) = g.slices(h2, false);
            // make texts of equal length likely
            if h == h2 && g.r.chance(1, 2) {
                qs2 = qs.clone();
            } else if g.r.chance(1, 2) {
                let full = g.bounds(h2);
                let want = *b1.last().unwrap();
                let c: Vec<(usize, usize)> = full
                    .iter()
                    .flat_map(|&x| full.iter().map(move |&y| (x, y)))
                    .filter(|(x, y)| x + want == *y)
                    .collect();
                if !c.is_empty() {
                    let (x, y) = *g.r.pick(&c);
                    qs2 = vec![json!({"f":"range","s":x,"e":y})];
                }
            }
            g.s.exec(&json!({"a":"textcmp","h":h,"qs":qs,"h2":h2,"qs2":qs2}));
        }
        "retext" => {
            // a tree with the text of another one, cut up differently
            let Some(h) = g.pick_h(|g, h| g.is_node(h)) else { return };
            let t = g.text_of(h);
            let gv = recut(&mut g.r, &t, 0);
            kinds_of(&gv, &mut g.kinds);
            let d = g.slot_g();
            g.s.exec(&json!({"a":"green","d":d,"g":gv.json(),"m":g.r.below(4)}));
            let dh = g.free_h();
            g.s.exec(&json!({"a":"root","g":d,"d":dh,"m":g.r.below(2),"l":l,"v":v}));
        }
        "ptr" => {
            let mis = g.r.below(16) < g.p.misuse;
            let ok = move |g: &Gen, h: usize| g.is_node(h) && (mis || !g.s.is_mutable(h));
            let Some(f) = g.pick_h(ok) else { return };
            let Some(f2) = g.pick_h(ok) else { return };
            let roots = g.pick_h(|g, h| ok(g, h) && !g.not_root(h));
            let any = g.pick_h(ok);
            let h = if g.r.chance(3, 4) { roots.or(any) } else { any };
            let Some(h) = h else { return };
            let (k, k2) = (g.kindset(lt), g.kindset(lt));
            g.s.exec(&json!({"a":"ptr","f":f,"f2":f2,"h":h,"l":lt,"v":v,"K":k,"K2":k2}));
        }
        "ast" => {
            let Some(h) = g.pick_h(|g, h| g.is_node(h)) else { return };
            let k = g.kindset(lt);
            let tk = if g.kinds.is_empty() { 0 } else { tr(lt as u8, *g.r.pick(&g.kinds)) };
            g.s.exec(&json!({"a":"ast","h":h,"l":lt,"v":v,"K":k,"k":tk,"at":g.r.below(4)}));
        }
        "acfu" | "acsub" => {
            let sub = name == "acsub";
            if let Some(h) = g.pick_h(|g, h| g.is_node(h) && (sub || !g.s.is_mutable(h))) {
                let d = g.free_h();
                if g.s.h[h].is_some() {
                    g.s.exec(&json!({"a":name,"h":h,"d":d,"l":lt}));
                    g.s.exec(&json!({"a":"dump","h":d,"m":0,"l":lt}));
                }
            }
        }
        "fmt" => {
            if let Some(h) = g.pick_h(|_, _| true) {
                g.s.exec(&json!({"a":"fmt","h":h,"l":l}));
            }
        }
        "sink" => {
            let call = if g.r.chance(1, 3) { 1 + g.r.below(9) } else { 0 };
            let cap = if call > 0 || g.r.chance(1, 8) { 9999 } else { g.r.below(30) };
            if g.r.chance(1, 6) {
                if let Some(i) = g.pick_g(|_| true) {
                    g.s.exec(&json!({"a":"sink","g":i,"f":"green","cap":cap,"call":call,"l":l}));
                }
                return;
            }
            let f = *g.r.pick(&["disp", "eldisp", "dbg", "pretty", "pretty", "text", "ser", "ser"]);
            let l = if matches!(f, "dbg" | "pretty" | "ser") { lt } else { l };
            let cap = if f == "ser" && cap < 100 { cap * 8 } else { cap * 2 };
            if let Some(h) = g.pick_h(|g, h| f != "text" || g.is_node(h)) {
                g.s.exec(&json!({"a":"sink","h":h,"f":f,"cap":cap,"call":call,"l":l}));
            }
        }
        "ser" => {
            if let Some(h) = g.pick_h(|_, _| true) {
                let at = g.r.below(40);
                g.s.exec(&json!({"a":"ser","h":h,"l":lt,"at":at}));
            }
        }
        "gfmt" => {
            if let Some(i) = g.pick_g(|_| true) {
                g.s.exec(&json!({"a":"gfmt","g":i}));
            }
        }
        "boom" => {
            let n = 1 + *g.r.pick(&[0, 0, 1, 1, 2, 3, 5, 8]);
            let kinds = g.kindset(l);
            let mut e = json!({"a":"boom","op":"","n":n,"K":kinds,"lo":0,"hi":0,"xs":[],"h":0,"g":0,"l":l,"v":v});
            if g.r.chance(1, 4) {
                let leaks = g.p.misuse > 0;
                let op = *g.r.pick(if leaks { &["gnew", "gsplice", "gfmt"] } else { &["gsplice", "gsplice", "gfmt"] });
                let Some(i) = g.pick_g(|g| matches!(g, NodeOrToken::Node(_))) else { return };
                let have: Vec<usize> = (1..=NG).filter(|&i| g.s.g[i].is_some()).collect();
                let len = match &g.s.g[i] {
                    Some(NodeOrToken::Node(n)) => n.children().len(),
                    _ => 0,
                };
                let xs: Vec<usize> = (0..g.r.below(4)).map(|_| *g.r.pick(&have)).collect();
                let hi = g.r.below(len + 1);
                e["lo"] = json!(g.r.below(hi + 1));
                e["hi"] = json!(hi);
                e["xs"] = json!(xs);
                e["g"] = json!(i);
                e["op"] = json!(op);
            } else {
                let node = g.r.chance(4, 5);
                let Some(h) = g.pick_h(|g, h| g.is_node(h) == node) else { return };
                let op = if node { *g.r.pick(CALLS) } else { *g.r.pick(&["kind", "disp", "dbg", "pretty", "ser"]) };
                let op = if l == 0 && (op == "ser" || op.starts_with("ast")) { "disp" } else { op };
                e["h"] = json!(h);
                e["op"] = json!(op);
            }
            g.s.exec(&e);
            if g.p.obs_after {
                g.s.exec(&json!({"a":"obs","l":l,"v":v,"txt":0}));
                if g.r.chance(1, 3) {
                    g.s.exec(&json!({"a":"greens"}));
                }
            }
        }
        "geqs" => g.s.exec(&json!({"a":"geqs"})),
        "twin" => {
            // the same green tree again, or one that differs in a detail, made in another way
            let Some(i) = g.pick_g(|_| true) else { return };
            let mut gv = Gv::read_green(g.s.g[i].as_ref().unwrap());
            if g.r.chance(2, 3) {
                tweak(&mut g.r, &mut gv);
            }
            let d = g.slot_g();
            let m = g.r.below(4);
            g.s.exec(&json!({"a":"green","d":d,"g":gv.json(),"m":m}));
        }
        "gkids" => {
            let Some(i) = g.pick_g(|g| matches!(g, NodeOrToken::Node(_))) else { return };
            let steps: Vec<usize> = (0..g.r.below(6))
                .map(|_| match g.r.below(6) {
                    0 | 1 => 0,
                    2 | 3 => 1,
                    4 => 10 + g.r.below(4),
                    _ => 100 + g.r.below(4),
                })
                .collect();
            g.s.exec(&json!({"a":"gkids","g":i,"steps":steps}));
        }
        "misuse" => {
            match g.r.below(8) {
                0 => {
                    let Some(h) = g.pick_h(|g, h| g.is_node(h)) else { return };
                    let (s, e) = g.text_len(h);
                    let mut rs = vec![json!({"o":e + 1}), json!({"o":e + 7})];
                    if s > 0 {
                        rs.push(json!({"o":s - 1}));
                    }
                    g.s.exec(&json!({"a":"tokat","h":h,"l":l,"v":v,"rs":rs}));
                }
                1 => {
                    let Some(h) = g.pick_h(|g, h| g.is_node(h)) else { return };
                    let (s, e) = g.text_len(h);
                    let mut rs = vec![json!({"s":s,"e":e + 1}), json!({"s":e + 1,"e":e + 1})];
                    if s > 0 {
                        rs.push(json!({"s":s - 1,"e":s}));
                        rs.push(json!({"s":s - 1,"e":s - 1}));
                    }
                    g.s.exec(&json!({"a":"cover","h":h,"l":l,"v":v,"rs":rs}));
                }
                2 => {
                    let Some(h) = g.pick_h(|g, h| g.is_node(h)) else { return };
                    let (qs, _) = g.slices(h, true);
                    g.s.exec(&json!({"a":"text","h":h,"l":l,"qs":qs,"stop":0,"find":[],"has":[],"at":[],"cmp":[]}));
                }
                3 | 4 => {
                    let have: Vec<usize> = (1..=NG).filter(|&i| g.s.g[i].is_some()).collect();
                    if have.is_empty() {
                        return;
                    }
                    let n = g.r.below(4);
                    let xs: Vec<usize> = (0..n).map(|_| *g.r.pick(&have)).collect();
                    let ann = if n > 0 && g.r.chance(1, 2) { g.r.below(n) } else { n + g.r.range(1, 3) };
                    g.s.exec(&json!({"a":"lie","xs":xs,"ann":ann,"k":g.r.below(300)}));
                }
                5 => {
                    let Some(i) = g.pick_g(|g| matches!(g, NodeOrToken::Node(_))) else { return };
                    let n = match &g.s.g[i] {
                        Some(NodeOrToken::Node(n)) => n.children().len(),
                        _ => 0,
                    };
                    let over = n + g.r.range(1, 3);
                    let (op, lo, hi, xs) = match g.r.below(4) {
                        0 => ("insert_child", over, over, vec![i]),
                        1 => ("remove_child", n + g.r.below(2), 0, vec![]),
                        2 => ("splice_children", g.r.below(n + 1), over, vec![]),
                        _ => ("splice_children", over, over, vec![i]),
                    };
                    g.s.exec(&json!({"a":"gbad","g":i,"op":op,"lo":lo,"hi":hi,"xs":xs}));
                }
                6 => generate(g, "ptr", l, v),
                _ => g.op("repl"),
            }
            g.s.exec(&json!({"a":"obs","l":l,"v":v,"txt":0}));
            if g.r.chance(1, 2) {
                g.s.exec(&json!({"a":"greens"}));
            }
        }
        _ => panic!("harness: no such operation {name}"),
    }
}

/// A tree with the given text.
fn recut(r: &mut crate::rng::Rng, t: &str, depth: usize) -> Gv {
    let cs: Vec<char> = t.chars().collect();
    let mut kids = vec![];
    let mut i = 0;
    while i < cs.len() {
        if r.chance(1, 6) {
            kids.push(if r.chance(1, 2) { Gv::Tok(2, String::new()) } else { Gv::Node(3, vec![]) });
        }
        let n = r.range(1, 4).min(cs.len() - i);
        let piece: String = cs[i..i + n].iter().collect();
        i += n;
        kids.push(if depth < 2 && r.chance(1, 3) { recut(r, &piece, depth + 1) } else { Gv::Tok(r.below(3) as u16, piece) });
    }
    Gv::Node(1, kids)
}

/// A small change somewhere.
fn tweak(r: &mut crate::rng::Rng, g: &mut Gv) {
    match g {
        Gv::Tok(k, t) => match r.below(3) {
            0 => *k = k.wrapping_add(1),
            1 => *k ^= 256,
            _ => t.push('a'),
        },
        Gv::Node(k, c) => {
            if !c.is_empty() && r.chance(3, 4) {
                let i = r.below(c.len());
                tweak(r, &mut c[i]);
            } else {
                match r.below(5) {
                    0 => *k = k.wrapping_add(1),
                    1 => *k ^= 256,
                    2 => c.push(Gv::Tok(1, String::new())),
                    3 if !c.is_empty() => {
                        c.pop();
                    }
                    // the same text, divided differently
                    _ if c.len() == 1 => {
                        let x = c.pop().unwrap();
                        c.push(Gv::Node(*k, vec![x]));
                    }
                    _ => c.push(Gv::Node(2, vec![])),
                }
            }
        }
    }
}
