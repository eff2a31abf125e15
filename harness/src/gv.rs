//! Green trees as plain values, their JSON form, and ways of making real ones.
use crate::rng::Rng;
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken, SyntaxKind};
use serde_json::{Value, json};
use std::collections::HashMap;

pub type Green = NodeOrToken<GreenNode, GreenToken>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Gv {
    Tok(u16, String),
    Node(u16, Vec<Gv>),
}

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn from_cps(v: &Value) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(63) as u32)).collect())
        .unwrap_or_default()
}

impl Gv {
    pub fn kind(&self) -> u16 {
        match self {
            Gv::Tok(k, _) | Gv::Node(k, _) => *k,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Gv::Tok(..) => 1,
            Gv::Node(_, c) => 1 + c.iter().map(|c| c.size()).sum::<usize>(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Gv::Tok(_, t) => t.clone(),
            Gv::Node(_, c) => c.iter().map(|c| c.text()).collect(),
        }
    }
    pub fn is_node(&self) -> bool {
        matches!(self, Gv::Node(..))
    }
    pub fn json(&self) -> Value {
        match self {
            Gv::Tok(k, t) => json!({"n":0,"k":k,"t":cps(t),"c":[]}),
            Gv::Node(k, c) => {
                json!({"n":1,"k":k,"t":[],"c":c.iter().map(|c| c.json()).collect::<Vec<_>>()})
            }
        }
    }
    pub fn from_json(v: &Value) -> Gv {
        let k = v["k"].as_u64().unwrap() as u16;
        if v["n"].as_u64() == Some(0) {
            Gv::Tok(k, from_cps(&v["t"]))
        } else {
            Gv::Node(k, v["c"].as_array().unwrap().iter().map(Gv::from_json).collect())
        }
    }
    /// What a real green tree contains.
    pub fn read(g: NodeOrToken<&GreenNodeData, &rowan::GreenTokenData>) -> Gv {
        match g {
            NodeOrToken::Token(t) => Gv::Tok(t.kind().0, t.text().to_string()),
            NodeOrToken::Node(n) => Gv::Node(n.kind().0, n.children().map(Gv::read).collect()),
        }
    }
    pub fn read_green(g: &Green) -> Gv {
        match g {
            NodeOrToken::Node(n) => Gv::read(NodeOrToken::Node(n)),
            NodeOrToken::Token(t) => Gv::read(NodeOrToken::Token(t)),
        }
    }

    /// Nothing shared.
    pub fn plain(&self) -> Green {
        match self {
            Gv::Tok(k, t) => NodeOrToken::Token(GreenToken::new(SyntaxKind(*k), t)),
            Gv::Node(k, c) => {
                let kids: Vec<Green> = c.iter().map(|c| c.plain()).collect();
                NodeOrToken::Node(GreenNode::new(SyntaxKind(*k), kids))
            }
        }
    }
    /// Equal subtrees are one object.
    pub fn shared(&self, memo: &mut HashMap<Gv, Green>) -> Green {
        if let Some(g) = memo.get(self) {
            return g.clone();
        }
        let g = match self {
            Gv::Tok(k, t) => NodeOrToken::Token(GreenToken::new(SyntaxKind(*k), t)),
            Gv::Node(k, c) => {
                let kids: Vec<Green> = c.iter().map(|c| c.shared(memo)).collect();
                NodeOrToken::Node(GreenNode::new(SyntaxKind(*k), kids))
            }
        };
        let _u = crate::alloc::Untag::new();
        memo.insert(self.clone(), g.clone());
        g
    }
    fn feed(&self, b: &mut GreenNodeBuilder<'_>) {
        match self {
            Gv::Tok(k, t) => b.token(SyntaxKind(*k), t),
            Gv::Node(k, c) => {
                b.start_node(SyntaxKind(*k));
                for c in c {
                    c.feed(b);
                }
                b.finish_node();
            }
        }
    }
    pub fn build(&self) -> Green {
        let mut b = GreenNodeBuilder::new();
        self.feed(&mut b);
        NodeOrToken::Node(b.finish())
    }
    pub fn build_with(&self, cache: &mut NodeCache) -> Green {
        let mut b = GreenNodeBuilder::with_cache(cache);
        self.feed(&mut b);
        NodeOrToken::Node(b.finish())
    }
}

/// Parameters of random trees.
#[derive(Clone, Copy)]
pub struct Shape {
    pub size: usize,
    pub width: usize,
    pub depth: usize,
    /// chance (of 16) that a leaf has no text, that a leaf is a node, that text is not ASCII
    pub empty: usize,
    pub childless: usize,
    pub multibyte: usize,
    pub kinds: usize,
    pub long: usize,
}

pub fn random_shape(r: &mut Rng, max: usize) -> Shape {
    let style = r.below(10);
    let mut s = Shape {
        size: r.range(1, max),
        width: r.range(2, 6),
        depth: r.range(2, 6),
        empty: r.below(8),
        childless: r.below(8),
        multibyte: r.below(8),
        kinds: r.range(1, 6),
        long: if r.chance(1, 4) { 4 } else { 0 },
    };
    match style {
        0 => {
            s.width = max;
            s.depth = 2;
            s.size = max;
        }
        1 => {
            s.width = 2;
            s.depth = max;
        }
        2 => {
            s.empty = 14;
            s.childless = 4;
        }
        3 => {
            s.childless = 12;
            s.kinds = 2;
        }
        _ => {}
    }
    s
}

const KINDS: [u16; 12] = [0, 1, 2, 3, 255, 256, 257, 300, 4096, 32767, 32768, 65535];
const CHARS: [&str; 22] = [
    "a", "b", "c", " ", "\n", "é", "ß", "日", "本", "😀", "𝄞", "x", "\"", "\\", "0", "ё", "\t", "\r", "\0",
    "\u{1b}", "'", "\u{7f}",
];

pub fn random_text(r: &mut Rng, s: &Shape) -> String {
    if r.below(16) < s.empty {
        return String::new();
    }
    let n = if s.long > 0 && r.chance(1, s.long) { r.range(15, 40) } else { r.range(1, 3) };
    (0..n)
        .map(|_| {
            if r.below(16) < s.multibyte {
                CHARS[r.range(5, 10)]
            } else if r.chance(1, 6) {
                CHARS[r.below(CHARS.len())]
            } else {
                CHARS[r.below(4)]
            }
        })
        .collect()
}

pub fn random_kind(r: &mut Rng, s: &Shape, base: usize) -> u16 {
    KINDS[(base + r.below(s.kinds)) % KINDS.len()]
}

pub fn random_tree(r: &mut Rng, s: &Shape) -> Gv {
    let base = r.below(KINDS.len());
    let mut left = s.size.saturating_sub(1);
    let k = random_kind(r, s, base);
    let mut pool: Vec<Gv> = Vec::new();
    let kids = random_kids(r, s, base, s.depth, &mut left, &mut pool);
    Gv::Node(k, kids)
}

fn random_kids(
    r: &mut Rng,
    s: &Shape,
    base: usize,
    depth: usize,
    left: &mut usize,
    pool: &mut Vec<Gv>,
) -> Vec<Gv> {
    let mut kids = Vec::new();
    let lo = if r.chance(1, 6) { 0 } else { 1 };
    let n = r.range(lo, s.width);
    for _ in 0..n {
        if *left == 0 {
            break;
        }
        // an equal subtree again
        if !pool.is_empty() && r.chance(1, 5) {
            let g = r.pick(pool).clone();
            if g.size() <= *left {
                *left -= g.size();
                kids.push(g);
                continue;
            }
        }
        *left -= 1;
        let g = if depth > 1 && r.chance(7, 16) {
            let k = random_kind(r, s, base);
            let c = random_kids(r, s, base, depth - 1, left, pool);
            Gv::Node(k, c)
        } else if r.below(16) < s.childless {
            Gv::Node(random_kind(r, s, base), Vec::new())
        } else {
            let k = random_kind(r, s, base);
            Gv::Tok(k, random_text(r, s))
        };
        if g.size() < 6 {
            pool.push(g.clone());
        }
        kids.push(g);
    }
    kids
}

/// A tree beyond small numbers: a long chain, or a node with several hundred children.
pub fn big_tree(r: &mut Rng) -> Gv {
    let sh = random_shape(r, 4);
    let leaf = |r: &mut Rng| {
        let k = random_kind(r, &sh, 0);
        if r.chance(1, 4) { Gv::Node(k, vec![]) } else { Gv::Tok(k, random_text(r, &sh)) }
    };
    let few = |r: &mut Rng| (0..r.below(3)).map(|_| leaf(r)).collect::<Vec<_>>();
    let mut g = if r.chance(1, 2) {
        let mut g = random_tree(r, &sh);
        for _ in 0..r.range(40, 108) {
            let mut c = vec![];
            if r.chance(1, 6) {
                c.append(&mut few(r));
            }
            c.push(g);
            if r.chance(1, 6) {
                c.append(&mut few(r));
            }
            g = Gv::Node(random_kind(r, &sh, 0), c);
        }
        g
    } else {
        let n = r.range(200, 560);
        let mut c = vec![];
        while c.len() < n {
            // runs of one sort, and mixtures
            let run = *r.pick(&[1, 1, 2, 5, 40, 130]);
            let x = if r.chance(1, 3) { random_tree(r, &sh) } else { leaf(r) };
            c.extend(std::iter::repeat_n(x, run));
        }
        Gv::Node(random_kind(r, &sh, 0), c)
    };
    while r.chance(1, 2) {
        let mut c = few(r);
        c.push(g);
        c.append(&mut few(r));
        g = Gv::Node(random_kind(r, &sh, 0), c);
    }
    g
}

/// All kinds in a tree.
pub fn kinds_of(g: &Gv, out: &mut Vec<u16>) {
    if !out.contains(&g.kind()) {
        out.push(g.kind());
    }
    if let Gv::Node(_, c) = g {
        c.iter().for_each(|c| kinds_of(c, out));
    }
}
