//! One interface over the raw (cursor) API and the typed API in two languages whose kind
//! translation is not the identity. Everything here only forwards.
use rowan::{
    Direction, Language, NodeOrToken, SyntaxKind, TextRange, TextSize, TokenAtOffset, WalkEvent,
    api, cursor,
};
use std::collections::HashSet;
use std::fmt;
use std::hash::Hash;
use std::rc::Rc;

pub type RawEl = cursor::SyntaxElement;
pub type El<A> = NodeOrToken<<A as Api>::N, <A as Api>::T>;

macro_rules! lang {
    ($L:ident, $K:ident, $from:expr, $to:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub enum $L {}
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $K(pub u16);
        impl fmt::Debug for $K {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "K{}", self.0)
            }
        }
        impl From<$K> for u16 {
            fn from(k: $K) -> u16 {
                k.0
            }
        }
        impl Language for $L {
            type Kind = $K;
            fn kind_from_raw(raw: SyntaxKind) -> $K {
                tick();
                let f: fn(u16) -> u16 = $from;
                $K(f(raw.0))
            }
            fn kind_to_raw(kind: $K) -> SyntaxKind {
                let f: fn(u16) -> u16 = $to;
                SyntaxKind(f(kind.0))
            }
        }
    };
}
lang!(LangA, KindA, |k| 65535 - k, |k| 65535 - k);
lang!(LangB, KindB, |k| k.wrapping_add(77), |k| k.wrapping_sub(77));

/// The translation of raw kinds in language `lg`.
pub fn tr(lg: u8, k: u16) -> u16 {
    match lg {
        0 => k,
        1 => LangA::kind_from_raw(SyntaxKind(k)).0,
        _ => LangB::kind_from_raw(SyntaxKind(k)).0,
    }
}

pub trait DynIt {
    fn next(&mut self) -> Option<RawEl>;
    fn try_clone(&self) -> Option<Box<dyn DynIt>>;
    fn can_filter(&self) -> bool {
        false
    }
    fn by_kind(self: Box<Self>, ks: Vec<u16>) -> Box<dyn DynIt>;
    fn nth(&mut self, n: usize) -> Option<RawEl> {
        (0..n).all(|_| self.next().is_some()).then(|| self.next()).flatten()
    }
    fn hint(&self) -> (usize, Option<usize>);
    fn last(self: Box<Self>) -> Option<RawEl>;
    fn count(self: Box<Self>) -> usize;
    fn rest(self: Box<Self>) -> Vec<RawEl>;
}

/// The adaptors an iterator type may define itself.
macro_rules! adaptors {
    ($it:tt, $conv:expr) => {
        fn nth(&mut self, n: usize) -> Option<RawEl> {
            self.$it.nth(n).map($conv)
        }
        fn hint(&self) -> (usize, Option<usize>) {
            self.$it.size_hint()
        }
        fn last(self: Box<Self>) -> Option<RawEl> {
            self.$it.last().map($conv)
        }
        fn count(self: Box<Self>) -> usize {
            self.$it.count()
        }
        fn rest(self: Box<Self>) -> Vec<RawEl> {
            self.$it.fold(Vec::new(), |mut v, x| {
                v.push(($conv)(x));
                v
            })
        }
    };
}

pub trait DynWalk {
    /// 1: enter, 0: leave
    fn next(&mut self) -> Option<(u8, RawEl)>;
    fn skip(&mut self);
}

struct Opaque<I>(I);
impl<I: Iterator<Item = RawEl> + 'static> DynIt for Opaque<I> {
    fn next(&mut self) -> Option<RawEl> {
        self.0.next()
    }
    fn try_clone(&self) -> Option<Box<dyn DynIt>> {
        None
    }
    fn by_kind(self: Box<Self>, _: Vec<u16>) -> Box<dyn DynIt> {
        self
    }
    adaptors!(0, |x| x);
}
/// An iterator that borrows the element it started from.
struct Owning<E> {
    it: Option<Box<dyn Iterator<Item = RawEl>>>,
    el: Option<Box<E>>,
}
impl<E> Drop for Owning<E> {
    fn drop(&mut self) {
        self.it = None;
        self.el = None;
    }
}
impl<E: 'static> DynIt for Owning<E> {
    fn next(&mut self) -> Option<RawEl> {
        self.it.as_mut().and_then(|it| it.next())
    }
    fn try_clone(&self) -> Option<Box<dyn DynIt>> {
        None
    }
    fn by_kind(self: Box<Self>, _: Vec<u16>) -> Box<dyn DynIt> {
        self
    }
    fn nth(&mut self, n: usize) -> Option<RawEl> {
        self.it.as_mut().and_then(|it| it.nth(n))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.as_ref().unwrap().size_hint()
    }
    fn last(mut self: Box<Self>) -> Option<RawEl> {
        self.it.take().and_then(|it| it.last())
    }
    fn count(mut self: Box<Self>) -> usize {
        self.it.take().map_or(0, |it| it.count())
    }
    fn rest(mut self: Box<Self>) -> Vec<RawEl> {
        self.it.take().map_or(Vec::new(), |it| it.collect())
    }
}
struct Cloneable<I>(I);
impl<I: Iterator<Item = RawEl> + Clone + 'static> DynIt for Cloneable<I> {
    fn next(&mut self) -> Option<RawEl> {
        self.0.next()
    }
    fn try_clone(&self) -> Option<Box<dyn DynIt>> {
        Some(Box::new(Cloneable(self.0.clone())))
    }
    fn by_kind(self: Box<Self>, _: Vec<u16>) -> Box<dyn DynIt> {
        self
    }
    adaptors!(0, |x| x);
}

/// What a handle lends out.
pub enum HeldRef {
    Node(std::borrow::Cow<'static, rowan::GreenNodeData>),
    Token(&'static rowan::GreenTokenData, &'static str),
}
pub struct Held {
    pub r: HeldRef,
    _owner: Box<dyn std::any::Any>,
}
impl Held {
    /// Borrows from a handle of its own.
    pub fn new<A: Api>(e: El<A>) -> Held {
        let b = Box::new(e);
        // SAFETY: the element stays where it is as long as the borrow.
        let r: &'static El<A> = unsafe { &*(&*b as *const El<A>) };
        Held { r: A::hold(r), _owner: b }
    }
    pub fn read(&self) -> crate::gv::Gv {
        match &self.r {
            HeldRef::Node(n) => crate::gv::Gv::read(NodeOrToken::Node(n)),
            HeldRef::Token(t, s) => {
                assert_eq!(t.text(), *s);
                crate::gv::Gv::Tok(t.kind().0, s.to_string())
            }
        }
    }
}

pub trait Api: 'static + Sized {
    const LANG: u8;
    type N: Clone + Eq + Hash + fmt::Debug + fmt::Display;
    type T: Clone + Eq + Hash + fmt::Debug + fmt::Display;
    fn up(e: RawEl) -> El<Self>;
    fn down(e: El<Self>) -> RawEl;
    fn kind(e: &El<Self>, v: u8) -> u16;
    fn range(e: &El<Self>, v: u8) -> TextRange;
    fn index(e: &El<Self>, v: u8) -> usize;
    fn parent(e: &El<Self>, v: u8) -> Option<Self::N>;
    fn is_mutable(n: &Self::N) -> bool;
    fn nav(e: &El<Self>, op: &str, ks: &[u16], v: u8) -> Option<El<Self>>;
    fn seq<'a>(e: &'a El<Self>, op: &str, ks: &[u16], v: u8) -> Option<Box<dyn Iterator<Item = El<Self>> + 'a>>;
    /// children by kind of a node that is given up
    fn own_by_kind(n: Self::N, op: &str, ks: &[u16]) -> Box<dyn Iterator<Item = El<Self>>>;
    fn iter(e: &El<Self>, op: &str, ks: &[u16]) -> Option<Box<dyn DynIt>>;
    fn walk(n: &Self::N, tok: u8) -> Box<dyn DynWalk>;
    fn token_at(n: &Self::N, off: u32) -> TokenAtOffset<Self::T>;
    fn covering(n: &Self::N, s: u32, e: u32) -> El<Self>;
    fn child_at(n: &Self::N, s: u32, e: u32) -> Option<El<Self>>;
    fn clone_for_update(n: &Self::N) -> Self::N;
    fn clone_subtree(n: &Self::N) -> Self::N;
    fn detach(e: &El<Self>, v: u8);
    fn splice(n: &Self::N, lo: usize, hi: usize, ins: &mut dyn Iterator<Item = El<Self>>);
    fn new_root(g: rowan::GreenNode, m: bool) -> Self::N;
    fn green_node(n: &Self::N) -> rowan::GreenNode;
    fn green_token(t: &Self::T) -> rowan::GreenToken;
    fn replace_node(n: &Self::N, g: rowan::GreenNode) -> rowan::GreenNode;
    fn replace_token(t: &Self::T, g: rowan::GreenToken) -> rowan::GreenNode;
    fn hold(e: &'static El<Self>) -> HeldRef;
    fn text(t: &Self::T) -> &str;
    fn node_text(n: &Self::N) -> rowan::SyntaxText;
}

/// Loops over a child list and detaches some of what it visits; returns all visited.
pub fn detach_loop<A: Api>(e: &El<A>, op: &str, ks: &[u16], mask: &mut dyn FnMut(&El<A>) -> bool) -> Option<()> {
    let it = A::seq(e, op, ks, 0)?;
    for c in it.take(100_000) {
        if mask(&c) {
            A::detach(&c, 1);
        }
    }
    Some(())
}

thread_local! {
    /// What a kind filter does besides answering, and the question at which it does so.
    static ASIDE: std::cell::RefCell<(usize, Option<Box<dyn FnOnce()>>)> = Default::default();
}
thread_local! {
    /// Client code panics when this reaches 0 (0: it does not).
    static BOOM: std::cell::Cell<usize> = Default::default();
    /// Calls that the driver itself causes do not count.
    static QUIET: std::cell::Cell<bool> = Default::default();
}
/// Called wherever the library runs code of its client.
pub fn tick() {
    let n = BOOM.get();
    if n > 0 && !QUIET.get() {
        BOOM.set(n - 1);
        if n == 1 {
            client_panic();
        }
    }
}
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    QUIET.set(true);
    let r = f();
    QUIET.set(false);
    r
}
pub fn client_panic() -> ! {
    std::panic::resume_unwind(Box::new("panic of the client"))
}
/// Lets the client's code panic at the n-th call (n > 0) while `body` runs; whether it did.
pub fn with_boom<R>(n: usize, body: impl FnOnce() -> R) -> (R, bool) {
    BOOM.set(n);
    let r = body();
    let fired = n > 0 && BOOM.get() == 0;
    BOOM.set(0);
    (r, fired)
}
fn asked(r: bool) -> bool {
    tick();
    aside();
    r
}
/// Called wherever the library runs code of its client that may do something else besides.
pub fn aside() {
    if QUIET.get() {
        return;
    }
    let f = ASIDE.with(|a| {
        let mut a = a.borrow_mut();
        a.0 = a.0.saturating_sub(1);
        if a.0 == 0 { a.1.take() } else { None }
    });
    if let Some(f) = f {
        f()
    }
}
/// Lets kind filters do something at the n-th question (n > 0), while `body` runs; whether they did.
pub fn with_aside<R>(n: usize, f: Box<dyn FnOnce()>, body: impl FnOnce() -> R) -> (R, bool) {
    ASIDE.with(|a| *a.borrow_mut() = (n, Some(f)));
    let r = body();
    let left = ASIDE.with(|a| a.borrow_mut().1.take());
    (r, left.is_none())
}

type Set = Rc<HashSet<u16>>;
fn set(ks: &[u16]) -> Set {
    Rc::new(ks.iter().copied().collect())
}

macro_rules! api_impl {
    ($S:ident, $N:ty, $T:ty, $K:ty, $lang:expr, $walk:ty, $walkt:ty, $kids:ty, $kidst:ty,
     $extra_nav:expr, $extra_seq:expr, $kids_by_kind:expr, $kidst_by_kind:expr) => {
        pub struct $S;
        const _: () = {
            fn mk(n: Option<$N>) -> Option<NodeOrToken<$N, $T>> {
                n.map(|n| n.into())
            }
            fn mt(n: Option<$T>) -> Option<NodeOrToken<$N, $T>> {
                n.map(|t| t.into())
            }
            struct Kids($kids);
            impl DynIt for Kids {
                fn next(&mut self) -> Option<RawEl> {
                    self.0.next().map(|n| NodeOrToken::Node(n.into()))
                }
                fn try_clone(&self) -> Option<Box<dyn DynIt>> {
                    Some(Box::new(Kids(self.0.clone())))
                }
                fn can_filter(&self) -> bool {
                    true
                }
                fn by_kind(self: Box<Self>, ks: Vec<u16>) -> Box<dyn DynIt> {
                    let s = set(&ks);
                    ($kids_by_kind)(self.0.by_kind(move |k: $K| asked(s.contains(&k.0))))
                }
                adaptors!(0, |n: $N| NodeOrToken::Node(n.into()));
            }
            struct KidsT($kidst);
            impl DynIt for KidsT {
                fn next(&mut self) -> Option<RawEl> {
                    self.0.next().map($S::down)
                }
                fn try_clone(&self) -> Option<Box<dyn DynIt>> {
                    Some(Box::new(KidsT(self.0.clone())))
                }
                fn can_filter(&self) -> bool {
                    true
                }
                fn by_kind(self: Box<Self>, ks: Vec<u16>) -> Box<dyn DynIt> {
                    let s = set(&ks);
                    ($kidst_by_kind)(self.0.by_kind(move |k: $K| asked(s.contains(&k.0))))
                }
                adaptors!(0, |e: El<$S>| $S::down(e));
            }
            struct W($walk);
            impl DynWalk for W {
                fn next(&mut self) -> Option<(u8, RawEl)> {
                    self.0.next().map(|e| match e {
                        WalkEvent::Enter(n) => (1, NodeOrToken::Node(n.into())),
                        WalkEvent::Leave(n) => (0, NodeOrToken::Node(n.into())),
                    })
                }
                fn skip(&mut self) {
                    self.0.skip_subtree()
                }
            }
            struct WT($walkt);
            impl DynWalk for WT {
                fn next(&mut self) -> Option<(u8, RawEl)> {
                    self.0.next().map(|e| match e {
                        WalkEvent::Enter(n) => (1, $S::down(n)),
                        WalkEvent::Leave(n) => (0, $S::down(n)),
                    })
                }
                fn skip(&mut self) {
                    self.0.skip_subtree()
                }
            }
            impl Api for $S {
                const LANG: u8 = $lang;
                type N = $N;
                type T = $T;
                fn up(e: RawEl) -> El<Self> {
                    e.into()
                }
                fn down(e: El<Self>) -> RawEl {
                    e.into()
                }
                fn kind(e: &El<Self>, v: u8) -> u16 {
                    match e {
                        _ if v == 1 => e.kind().0,
                        NodeOrToken::Node(n) => n.kind().0,
                        NodeOrToken::Token(t) => t.kind().0,
                    }
                }
                fn range(e: &El<Self>, v: u8) -> TextRange {
                    match e {
                        _ if v == 1 => e.text_range(),
                        NodeOrToken::Node(n) => n.text_range(),
                        NodeOrToken::Token(t) => t.text_range(),
                    }
                }
                fn index(e: &El<Self>, v: u8) -> usize {
                    match e {
                        _ if v == 1 => e.index(),
                        NodeOrToken::Node(n) => n.index(),
                        NodeOrToken::Token(t) => t.index(),
                    }
                }
                fn parent(e: &El<Self>, v: u8) -> Option<$N> {
                    match e {
                        _ if v == 1 => e.parent(),
                        NodeOrToken::Node(n) => n.parent(),
                        NodeOrToken::Token(t) => t.parent(),
                    }
                }
                fn is_mutable(n: &$N) -> bool {
                    n.is_mutable()
                }
                fn nav(e: &El<Self>, op: &str, ks: &[u16], v: u8) -> Option<El<Self>> {
                    let s = set(ks);
                    let m = move |k: $K| asked(s.contains(&k.0));
                    if v == 1 {
                        match op {
                            "clone" => return Some(e.clone()),
                            "parent" => return mk(e.parent()),
                            "next_sibling_or_token" => return e.next_sibling_or_token(),
                            "prev_sibling_or_token" => return e.prev_sibling_or_token(),
                            _ => {}
                        }
                    }
                    match op {
                        "as_node" => return mk(e.as_node().cloned()),
                        "as_token" => return mt(e.as_token().cloned()),
                        "into_node" => return e.clone().into_node().map(El::<Self>::from),
                        "into_token" => return e.clone().into_token().map(El::<Self>::from),
                        _ => {}
                    }
                    let extra: fn(&El<Self>, &str, &dyn Fn($K) -> bool, u8) -> Option<Option<El<Self>>> =
                        $extra_nav;
                    if let Some(r) = extra(e, op, &m, v) {
                        return r;
                    }
                    match e {
                        NodeOrToken::Node(n) => match op {
                            "clone" => mk(Some(n.clone())),
                            "parent" => mk(n.parent()),
                            "first_child" => mk(n.first_child()),
                            "last_child" => mk(n.last_child()),
                            "first_child_or_token" => n.first_child_or_token(),
                            "last_child_or_token" => n.last_child_or_token(),
                            "next_sibling" => mk(n.next_sibling()),
                            "prev_sibling" => mk(n.prev_sibling()),
                            "next_sibling_or_token" => n.next_sibling_or_token(),
                            "prev_sibling_or_token" => n.prev_sibling_or_token(),
                            "first_token" => mt(n.first_token()),
                            "last_token" => mt(n.last_token()),
                            "first_child_by_kind" => mk(n.first_child_by_kind(&m)),
                            "first_child_or_token_by_kind" => n.first_child_or_token_by_kind(&m),
                            "next_sibling_by_kind" => mk(n.next_sibling_by_kind(&m)),
                            "next_sibling_or_token_by_kind" => n.next_sibling_or_token_by_kind(&m),
                            _ => panic!("harness: no such op {op}"),
                        },
                        NodeOrToken::Token(t) => match op {
                            "clone" => mt(Some(t.clone())),
                            "parent" => mk(t.parent()),
                            "next_sibling_or_token" => t.next_sibling_or_token(),
                            "prev_sibling_or_token" => t.prev_sibling_or_token(),
                            "next_token" => mt(t.next_token()),
                            "prev_token" => mt(t.prev_token()),
                            _ => panic!("harness: no such op {op}"),
                        },
                    }
                }
                fn seq<'a>(
                    e: &'a El<Self>,
                    op: &str,
                    ks: &[u16],
                    v: u8,
                ) -> Option<Box<dyn Iterator<Item = El<Self>> + 'a>> {
                    let s = set(ks);
                    let m = move |k: $K| asked(s.contains(&k.0));
                    if v == 1 && (op == "ancestors" || op == "parent_ancestors") {
                        return Some(Box::new(e.ancestors().map(NodeOrToken::Node)));
                    }
                    let extra: for<'b> fn(&'b El<Self>, &str) -> Option<Box<dyn Iterator<Item = El<Self>> + 'b>> =
                        $extra_seq;
                    if let Some(r) = extra(e, op) {
                        return Some(r);
                    }
                    Some(match e {
                        NodeOrToken::Node(n) => match op {
                            "ancestors" => Box::new(n.ancestors().map(NodeOrToken::Node)),
                            "children" => Box::new(n.children().map(NodeOrToken::Node)),
                            "children_with_tokens" => Box::new(n.children_with_tokens()),
                            "children_by_kind" => {
                                Box::new(n.children().by_kind(m).map(NodeOrToken::Node))
                            }
                            "children_with_tokens_by_kind" => {
                                Box::new(n.children_with_tokens().by_kind(m))
                            }
                            "siblings_next" => {
                                Box::new(n.siblings(Direction::Next).map(NodeOrToken::Node))
                            }
                            "siblings_prev" => {
                                Box::new(n.siblings(Direction::Prev).map(NodeOrToken::Node))
                            }
                            "siblings_with_tokens_next" => {
                                Box::new(n.siblings_with_tokens(Direction::Next))
                            }
                            "siblings_with_tokens_prev" => {
                                Box::new(n.siblings_with_tokens(Direction::Prev))
                            }
                            "descendants" => Box::new(n.descendants().map(NodeOrToken::Node)),
                            "descendants_with_tokens" => Box::new(n.descendants_with_tokens()),
                            _ => return None,
                        },
                        NodeOrToken::Token(t) => match op {
                            "siblings_with_tokens_next" => {
                                Box::new(t.siblings_with_tokens(Direction::Next))
                            }
                            "siblings_with_tokens_prev" => {
                                Box::new(t.siblings_with_tokens(Direction::Prev))
                            }
                            _ => return None,
                        },
                    })
                }
                fn own_by_kind(n: $N, op: &str, ks: &[u16]) -> Box<dyn Iterator<Item = El<Self>>> {
                    let s = set(ks);
                    let m = move |k: $K| asked(s.contains(&k.0));
                    if op == "children_by_kind" {
                        let it = n.children();
                        drop(n);
                        Box::new(it.by_kind(m).map(NodeOrToken::Node))
                    } else {
                        let it = n.children_with_tokens();
                        drop(n);
                        Box::new(it.by_kind(m))
                    }
                }
                fn iter(e: &El<Self>, op: &str, ks: &[u16]) -> Option<Box<dyn DynIt>> {
                    if let NodeOrToken::Node(n) = e {
                        match op {
                            "children" => return Some(Box::new(Kids(n.children()))),
                            "children_with_tokens" => {
                                return Some(Box::new(KidsT(n.children_with_tokens())));
                            }
                            _ => {}
                        }
                    }
                    let el = Box::new(e.clone());
                    // SAFETY: the element stays where it is until the iterator is gone.
                    let r: &'static El<Self> = unsafe { &*(&*el as *const El<Self>) };
                    let it = Self::seq(r, op, ks, 0)?;
                    Some(Box::new(Owning { it: Some(Box::new(it.map(Self::down))), el: Some(el) }))
                }
                fn walk(n: &$N, tok: u8) -> Box<dyn DynWalk> {
                    if tok == 1 {
                        Box::new(WT(n.preorder_with_tokens()))
                    } else {
                        Box::new(W(n.preorder()))
                    }
                }
                fn token_at(n: &$N, off: u32) -> TokenAtOffset<$T> {
                    n.token_at_offset(TextSize::from(off))
                }
                fn covering(n: &$N, s: u32, e: u32) -> El<Self> {
                    n.covering_element(TextRange::new(s.into(), e.into()))
                }
                fn child_at(n: &$N, s: u32, e: u32) -> Option<El<Self>> {
                    n.child_or_token_at_range(TextRange::new(s.into(), e.into()))
                }
                fn clone_for_update(n: &$N) -> $N {
                    n.clone_for_update()
                }
                fn clone_subtree(n: &$N) -> $N {
                    n.clone_subtree()
                }
                fn detach(e: &El<Self>, v: u8) {
                    match e {
                        _ if v == 1 => e.detach(),
                        NodeOrToken::Node(n) => n.detach(),
                        NodeOrToken::Token(t) => t.detach(),
                    }
                }
                fn splice(n: &$N, lo: usize, hi: usize, ins: &mut dyn Iterator<Item = El<Self>>) {
                    n.splice_children(lo..hi, ins)
                }
                fn new_root(g: rowan::GreenNode, m: bool) -> $N {
                    if m { <$N>::new_root_mut(g) } else { <$N>::new_root(g) }
                }
                fn green_node(n: &$N) -> rowan::GreenNode {
                    n.green().into_owned()
                }
                fn green_token(t: &$T) -> rowan::GreenToken {
                    t.green().to_owned()
                }
                fn replace_node(n: &$N, g: rowan::GreenNode) -> rowan::GreenNode {
                    n.replace_with(g)
                }
                fn replace_token(t: &$T, g: rowan::GreenToken) -> rowan::GreenNode {
                    t.replace_with(g)
                }
                fn hold(e: &'static El<Self>) -> HeldRef {
                    match e {
                        NodeOrToken::Node(n) => HeldRef::Node(n.green()),
                        NodeOrToken::Token(t) => HeldRef::Token(t.green(), t.text()),
                    }
                }
                fn text(t: &$T) -> &str {
                    t.text()
                }
                fn node_text(n: &$N) -> rowan::SyntaxText {
                    n.text()
                }
            }
        };
    };
}

api_impl!(
    Raw,
    cursor::SyntaxNode,
    cursor::SyntaxToken,
    SyntaxKind,
    0,
    cursor::Preorder,
    cursor::PreorderWithTokens,
    cursor::SyntaxNodeChildren,
    cursor::SyntaxElementChildren,
    |e, op, m, v| {
        if v == 1 {
            match op {
                "first_token" => return Some(mt(e.first_token())),
                "last_token" => return Some(mt(e.last_token())),
                "next_sibling_or_token_by_kind" => {
                    return Some(e.next_sibling_or_token_by_kind(&|k| m(k)));
                }
                _ => {}
            }
        }
        match (e, op) {
            (NodeOrToken::Node(n), "to_next_sibling") => Some(mk(n.clone().to_next_sibling())),
            (_, "to_next_sibling_or_token") => Some(e.clone().to_next_sibling_or_token()),
            (NodeOrToken::Token(t), "next_sibling_or_token_by_kind") => {
                Some(t.next_sibling_or_token_by_kind(&|k| m(k)))
            }
            _ => None,
        }
    },
    |e, op| match (e, op) {
        (NodeOrToken::Token(t), "parent_ancestors" | "parent_ancestors_deprecated") =>
            Some(Box::new(t.ancestors().map(NodeOrToken::Node))),
        _ => None,
    },
    |it: cursor::SyntaxNodeChildrenByKind<_>| -> Box<dyn DynIt> {
        Box::new(Cloneable(it.map(|n| NodeOrToken::Node(n))))
    },
    |it: cursor::SyntaxElementChildrenByKind<_>| -> Box<dyn DynIt> { Box::new(Cloneable(it)) }
);

/// The steps there are from a node or token in a layer and variant.
pub fn navs(node: bool, l: usize, v: usize) -> Vec<&'static str> {
    let mut all = if node {
        vec![
            "parent", "first_child", "last_child", "first_child_or_token", "last_child_or_token",
            "next_sibling", "prev_sibling", "next_sibling_or_token", "prev_sibling_or_token", "first_token",
            "last_token", "first_child_by_kind", "first_child_or_token_by_kind", "next_sibling_by_kind",
            "next_sibling_or_token_by_kind",
        ]
    } else {
        vec!["parent", "next_sibling_or_token", "prev_sibling_or_token", "next_token", "prev_token"]
    };
    if !node && l == 0 {
        all.push("next_sibling_or_token_by_kind");
        if v == 1 {
            all.extend(["first_token", "last_token"]);
        }
    }
    all.extend(["as_node", "as_token", "into_node", "into_token"]);
    all
}

macro_rules! typed_impl {
    ($S:ident, $L:ident, $K:ident, $lang:expr) => {
        api_impl!(
            $S,
            api::SyntaxNode<$L>,
            api::SyntaxToken<$L>,
            $K,
            $lang,
            api::Preorder<$L>,
            api::PreorderWithTokens<$L>,
            api::SyntaxNodeChildren<$L>,
            api::SyntaxElementChildren<$L>,
            |_, _, _, _| None,
            |e, op| match (e, op) {
                (NodeOrToken::Token(t), "parent_ancestors") =>
                    Some(Box::new(t.parent_ancestors().map(NodeOrToken::Node))),
                #[allow(deprecated)]
                (NodeOrToken::Token(t), "parent_ancestors_deprecated") =>
                    Some(Box::new(t.ancestors().map(NodeOrToken::Node))),
                _ => None,
            },
            |it| -> Box<dyn DynIt> {
                Box::new(Opaque(box_iter::<api::SyntaxNode<$L>>(it).map(|n| NodeOrToken::Node(n.into()))))
            },
            |it| -> Box<dyn DynIt> {
                Box::new(Opaque(box_iter::<api::SyntaxElement<$L>>(it).map(|e| e.into())))
            }
        );
    };
}
fn box_iter<T>(it: impl Iterator<Item = T> + 'static) -> Box<dyn Iterator<Item = T>> {
    Box::new(it)
}
typed_impl!(TypA, LangA, KindA, 1);
typed_impl!(TypB, LangB, KindB, 2);

#[macro_export]
macro_rules! with_api {
    ($lg:expr, $A:ident => $body:expr) => {
        match $lg {
            0 => {
                type $A = $crate::api::Raw;
                $body
            }
            1 => {
                type $A = $crate::api::TypA;
                $body
            }
            _ => {
                type $A = $crate::api::TypB;
                $body
            }
        }
    };
}
