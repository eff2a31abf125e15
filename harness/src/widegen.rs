//! Random histories over trees with very many children and very long texts.
use crate::rng::Rng;
use crate::sess::guard;
use crate::wide::*;
use rowan::NodeOrToken;
use serde_json::{Value, json};
use std::rc::Rc;

const KINDS: [u16; 9] = [1, 2, 3, 255, 256, 257, 32768, 65534, 65535];
const CHARS: [char; 6] = ['a', 'b', '\n', 'é', '日', '😀'];
const WIDE: [u64; 10] = [65534, 65535, 65536, 65537, 65540, 70001, 131071, 131072, 131073, 66000];
const MID: [u64; 8] = [127, 128, 129, 255, 256, 257, 511, 513];

pub struct WideGen {
    pub r: Rng,
    pub s: Wide,
    prof: String,
    /// what the tree of handle 1 was made from
    u: Rc<U>,
    mutable: bool,
    giant: bool,
}

fn tr(l: u8, k: u16) -> u16 {
    crate::api::tr(l, k)
}

impl WideGen {
    pub fn new(seed: u64, s: Wide, prof: &str) -> WideGen {
        WideGen { r: Rng::new(seed), s, prof: prof.into(), u: Rc::new(U::node(1, vec![])), mutable: false, giant: false }
    }
    fn kind(&mut self) -> u16 {
        *self.r.pick(&KINDS)
    }
    fn few(&mut self) -> u64 {
        self.r.range(1, 3) as u64
    }
    fn count(&mut self) -> u64 {
        match self.r.below(6) {
            0 | 1 => *self.r.pick(&WIDE),
            2 | 3 => *self.r.pick(&MID),
            _ => self.few(),
        }
    }
    /// A small element whose text repeats one character.
    fn unit(&mut self, deep: bool) -> U {
        let c = *self.r.pick(&CHARS[..4]) as u32;
        let k = self.kind();
        match self.r.below(if deep { 8 } else { 4 }) {
            0 => U::tok(k, vec![]),
            1..=3 => U::tok(k, vec![(c, self.few())]),
            4 => U::node(k, vec![]),
            _ => {
                let mut kids = vec![];
                for _ in 0..self.few() {
                    let t = if self.r.chance(1, 4) { vec![] } else { vec![(c, 1)] };
                    let k = self.kind();
                    let t = U::tok(k, t);
                    let x = if self.r.chance(1, 4) { U::node(self.kind(), vec![(Rc::new(t), 1)]) } else { t };
                    kids.push((Rc::new(x), self.few()));
                }
                U::node(k, kids)
            }
        }
    }
    fn long_text(&mut self) -> Txt {
        let mut t: Txt = vec![];
        for _ in 0..self.r.range(1, 3) {
            let c = *self.r.pick(&CHARS) as u32;
            if t.last().is_some_and(|l| l.0 == c) {
                continue;
            }
            let n = if self.r.chance(1, 2) { *self.r.pick(&WIDE) } else { *self.r.pick(&MID) };
            t.push((c, n / if c > 127 { 2 } else { 1 }));
        }
        t
    }
    fn wide_node(&mut self) -> U {
        let k = self.kind();
        let mut kids = vec![];
        let mut total = 0;
        let big = self.r.below(3);
        let n = self.r.range(1, 4);
        for i in 0..n.max(big + 1) {
            let x = if self.r.chance(1, 6) { U::tok(self.kind(), self.long_text()) } else { self.unit(true) };
            let mut m = if i == big { *self.r.pick(&WIDE) } else { self.count() };
            if x.n == 0 && tbytes(&x.t) > 100 {
                m = self.few();
            }
            if total + m * x.size() > 300_000 {
                m = self.few();
            }
            total += m * x.size();
            kids.push((Rc::new(x), m));
        }
        U::node(k, kids)
    }
    pub fn tree(&mut self) -> U {
        self.giant = false;
        match self.r.below(12) {
            0..=5 => self.wide_node(),
            6 | 7 => {
                // somewhere below the root
                let mut kids = vec![];
                for _ in 0..self.r.range(0, 2) {
                    kids.push((Rc::new(self.unit(true)), self.few()));
                }
                kids.push((Rc::new(self.wide_node()), 1));
                if self.r.chance(1, 2) {
                    kids.push((Rc::new(self.unit(true)), self.few()));
                }
                let x = U::node(self.kind(), kids);
                if self.r.chance(1, 3) { U::node(self.kind(), vec![(Rc::new(self.unit(false)), 1), (Rc::new(x), 1)]) } else { x }
            }
            8 | 9 => {
                // long tokens
                let mut kids = vec![];
                for _ in 0..self.r.range(1, 4) {
                    let x = match self.r.below(3) {
                        0 => self.unit(true),
                        _ => U::tok(self.kind(), self.long_text()),
                    };
                    kids.push((Rc::new(x), 1));
                }
                U::node(self.kind(), kids)
            }
            10 => {
                // two levels
                let c = *self.r.pick(&CHARS[..4]) as u32;
                let (a, b) = (*self.r.pick(&[200u64, 256, 257]), *self.r.pick(&[255u64, 256, 260]));
                let t = U::tok(self.kind(), vec![(c, self.few())]);
                let x = U::node(self.kind(), vec![(Rc::new(t), b)]);
                let y = self.unit(false);
                U::node(self.kind(), vec![(Rc::new(y), 1), (Rc::new(x), a)])
            }
            _ => {
                self.giant = true;
                let mut kids = vec![];
                let mut left: u64 = (1 << 31) - 40_000_000;
                for _ in 0..self.r.range(1, 3) {
                    let n = *self.r.pick(&[1u64 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
                    let m = (*self.r.pick(&[2u64, 16, 40, 63])).min(left / n);
                    left -= n * m;
                    let t = U::tok(self.kind(), vec![('a' as u32, n)]);
                    let x = if self.r.chance(1, 2) { t } else { U::node(self.kind(), vec![(Rc::new(t), 1)]) };
                    kids.push((Rc::new(x), m));
                    if self.r.chance(1, 2) {
                        kids.push((Rc::new(self.unit(true)), self.few()));
                    }
                }
                U::node(self.kind(), kids)
            }
        }
    }

    // ------------------------------------------------------------ what there is
    fn node(&self, h: usize) -> Option<rowan::cursor::SyntaxNode> {
        self.s.h[h].clone().and_then(|e| e.into_node())
    }
    fn kids(&self, h: usize) -> usize {
        match self.node(h) {
            Some(n) => guard(|| n.green().children().len()).unwrap_or(0),
            None => 0,
        }
    }
    fn handles(&self) -> Vec<usize> {
        (1..=12).filter(|&h| self.s.h[h].is_some()).collect()
    }
    fn nodes(&self) -> Vec<usize> {
        (1..=12).filter(|&h| self.node(h).is_some()).collect()
    }
    fn a_node(&mut self) -> usize {
        let n = self.nodes();
        *self.r.pick(&n)
    }
    fn a_handle(&mut self) -> usize {
        let n = self.handles();
        *self.r.pick(&n)
    }
    /// A handle to store in; 1 stays.
    fn dest(&mut self) -> usize {
        for h in 2..=12 {
            if self.s.h[h].is_none() {
                return h;
            }
        }
        self.r.range(2, 12)
    }
    fn index(&mut self, n: usize) -> usize {
        let mut c: Vec<usize> = vec![0, 1, n - 1, n.saturating_sub(2), n / 2, self.r.below(n), self.r.below(n)];
        c.extend([255, 256, 257, 65534, 65535, 65536, 65537, 65538, 131071, 131072]);
        c.extend([65535, 65536, 65537]);
        let mut at = 0;
        for (_, m) in &self.u.c {
            at += *m as usize;
            c.extend([at - 1, at, at + 1]);
        }
        c.retain(|&i| i < n);
        *self.r.pick(&c)
    }
    fn lang(&mut self) -> (u8, u8) {
        (self.r.below(3) as u8, self.r.below(2) as u8)
    }
    fn range(&self, h: usize) -> (usize, usize) {
        let e = self.s.h[h].clone().unwrap();
        guard(|| (u32::from(e.text_range().start()) as usize, u32::from(e.text_range().end()) as usize)).unwrap_or((0, 0))
    }
    fn kinds(&mut self, l: u8) -> Vec<u16> {
        let mut k = vec![];
        for _ in 0..self.r.range(1, 2) {
            let x = self.kind();
            k.push(tr(l, x));
        }
        if self.r.chance(2, 3) && !self.u.c.is_empty() {
            let i = self.r.below(self.u.c.len());
            k.push(tr(l, self.u.c[i].0.k));
        }
        k.sort();
        k.dedup();
        k
    }

    // ------------------------------------------------------------ events
    fn go(&mut self, e: Value) {
        self.s.exec(&e);
    }
    fn goto(&mut self, h: usize, most: usize) -> Option<usize> {
        let mut g = self.node(h)?.green().into_owned();
        let mut p = vec![];
        for _ in 0..self.r.range(1, most) {
            let n = g.children().len();
            if n == 0 {
                break;
            }
            // rather into something big
            let i = match g.children().position(|c| matches!(c, NodeOrToken::Node(n) if n.children().len() > 200)) {
                Some(i) if self.r.chance(1, 2) => i,
                _ => self.index(n),
            };
            p.push(i);
            let c = g.children().nth(i)?.to_owned();
            match c {
                NodeOrToken::Node(n) => g = n,
                NodeOrToken::Token(_) => break,
            }
        }
        if p.is_empty() {
            return None;
        }
        let (l, v) = self.lang();
        let d = self.dest();
        let how = self.r.below(4);
        self.go(json!({"a":"goto","h":h,"d":d,"l":l,"v":v,"how":how,"p":p}));
        Some(d)
    }
    fn step(&mut self) {
        let h = self.a_handle();
        let (l, v) = self.lang();
        let node = self.node(h).is_some();
        let ops: &[&str] = if node {
            &["parent", "first_child", "last_child", "first_child_or_token", "last_child_or_token", "next_sibling", "prev_sibling",
              "next_sibling_or_token", "prev_sibling_or_token", "first_token", "last_token", "first_child_by_kind",
              "first_child_or_token_by_kind", "next_sibling_by_kind", "next_sibling_or_token_by_kind"]
        } else {
            &["parent", "next_sibling_or_token", "prev_sibling_or_token", "next_token", "prev_token"]
        };
        let op = *self.r.pick(ops);
        let k = if op.ends_with("kind") { self.kinds(l) } else { vec![] };
        let d = if self.r.chance(1, 2) { 0 } else { self.dest() };
        self.go(json!({"a":"step","h":h,"d":d,"l":l,"v":v,"op":op,"K":k}));
    }
    fn seg(&mut self) {
        let h = self.a_handle();
        let (l, v) = self.lang();
        let node = self.node(h).is_some();
        let ops: &[&str] = if node {
            &["children", "children_with_tokens", "children_by_kind", "children_with_tokens_by_kind", "siblings_next", "siblings_prev",
              "siblings_with_tokens_next", "siblings_with_tokens_prev"]
        } else {
            &["siblings_with_tokens_next", "siblings_with_tokens_prev"]
        };
        let op = *self.r.pick(ops);
        let k = if op.ends_with("kind") { self.kinds(l) } else { vec![] };
        self.go(json!({"a":"seg","h":h,"l":l,"v":v,"op":op,"K":k}));
    }
    fn skel(&mut self) {
        let h = self.a_node();
        let (l, _) = self.lang();
        let tok = self.r.below(2);
        let how = *self.r.pick(&[0, 0, 0, 1, 2, 3]);
        let skip = if self.r.chance(1, 3) { self.kinds(l) } else { vec![] };
        self.go(json!({"a":"skel","h":h,"l":l,"tok":tok,"how":how,"skip":skip}));
    }
    /// Offsets where something happens.
    fn offsets(&mut self, h: usize) -> Vec<usize> {
        let (s, e) = self.range(h);
        let n = self.kids(h);
        let mut o = vec![s, e, s + (e - s) / 2, 65535, 65536, 65537, 131072, s + 65535, s + 65536, s + 65537, s + 1, e.saturating_sub(1)];
        if n > 0 {
            let g = self.node(h).unwrap().green().into_owned();
            for _ in 0..3 {
                let i = self.index(n);
                let w: u32 = g.children().take(i).map(|c| match c {
                    NodeOrToken::Node(n) => u32::from(n.text_len()),
                    NodeOrToken::Token(t) => u32::from(t.text_len()),
                }).sum();
                o.push(s + w as usize);
                o.push(s + w as usize + 1);
            }
        }
        for _ in 0..2 {
            o.push(s + self.r.below(e - s + 1));
        }
        o.retain(|&x| s <= x && x <= e);
        o
    }
    fn position(&mut self) {
        let h = self.a_node();
        let (l, v) = self.lang();
        let o = self.offsets(h);
        let (s, e) = self.range(h);
        if self.r.chance(1, 2) {
            let mut qs = o;
            if self.r.chance(1, 6) {
                qs.push(e + self.r.range(1, 70_000));
                if s > 0 {
                    qs.push(self.r.below(s));
                }
            }
            self.go(json!({"a":"tokat","h":h,"l":l,"v":v,"qs":qs}));
        } else {
            let mut qs = vec![];
            for _ in 0..6 {
                let a = *self.r.pick(&o);
                let b = if self.r.chance(1, 2) { a + self.r.below(3) } else { *self.r.pick(&o) };
                qs.push([a.min(b), a.max(b).min(e)]);
            }
            qs.retain(|q| q[0] <= q[1]);
            let a = if self.r.chance(1, 2) { "cover" } else { "childat" };
            if a == "cover" && self.r.chance(1, 6) {
                qs.push([s, e + self.r.range(1, 70_000)]);
            }
            self.go(json!({"a":a,"h":h,"l":l,"v":v,"qs":qs}));
        }
    }
    fn obs(&mut self) {
        let (l, v) = self.lang();
        self.go(json!({"a":"obs","l":l,"v":v}));
    }
    fn eqs(&mut self) {
        let hs = self.handles();
        let mut ps = vec![];
        for _ in 0..12 {
            let (i, j) = (*self.r.pick(&hs), *self.r.pick(&hs));
            ps.push([i, j]);
        }
        self.go(json!({"a":"eqs","ps":ps}));
    }
    fn gkids(&mut self) {
        let gs: Vec<usize> = (1..=8).filter(|&g| matches!(self.s.g[g], Some(NodeOrToken::Node(_)))).collect();
        let g = *self.r.pick(&gs);
        let n = self.s.g[g].clone().unwrap().into_node().unwrap().children().len();
        let mut qs = vec![n, n + 1, n + 65536];
        for _ in 0..5 {
            if n > 0 {
                qs.push(self.index(n));
            }
        }
        self.go(json!({"a":"gkids","g":g,"qs":qs}));
    }
    fn geqs(&mut self) {
        let gs: Vec<usize> = (1..=8).filter(|&g| self.s.g[g].is_some()).collect();
        let ps: Vec<[usize; 2]> = gs.iter().flat_map(|&i| gs.iter().map(move |&j| [i, j])).collect();
        self.go(json!({"a":"geqs","ps":ps}));
    }
    fn green(&mut self, u: &U, d: usize, share: bool) {
        let how = if self.giant { *self.r.pick(&[4, 5]) } else { *self.r.pick(if share { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 4, 5] }) };
        self.go(json!({"a":"green","d":d,"g":u.json(),"how":how,"share":(share && how < 4) as u8}));
    }
    /// The same tree with one difference, or none.
    fn variant(&mut self) -> U {
        let mut u = (*self.u).clone();
        if u.c.is_empty() || self.r.chance(1, 4) {
            return u;
        }
        let i = self.r.below(u.c.len());
        match self.r.below(5) {
            0 => u.c[i].1 += 1,
            1 => u.c[i].1 -= 1,
            2 => u.k = self.kind(),
            3 => {
                let x = self.unit(true);
                u.c.insert(i, (Rc::new(x), 1));
            }
            _ => {
                let mut x = (*u.c[i].0).clone();
                if x.n == 0 && !x.t.is_empty() {
                    let j = self.r.below(x.t.len());
                    // same length, another character somewhere; or another length
                    if self.r.chance(1, 2) && x.t[j].0 < 128 && x.t[j].1 > 2 {
                        let (c, n) = x.t[j];
                        let at = *self.r.pick(&[0, 1, n / 2, n - 2, n - 1]);
                        x.t.splice(j..=j, [(c, at), ('x' as u32, 1), (c, n - 1 - at)].into_iter().filter(|q| q.1 > 0));
                    } else {
                        x.t[j].1 += 1;
                    }
                } else {
                    x.k = self.kind();
                }
                u.c[i].1 -= 1;
                u.c.insert(i, (Rc::new(x), 1));
            }
        }
        U::node(u.k, u.c.into_iter().filter(|r| r.1 > 0).collect())
    }
    fn gedit(&mut self) {
        let gs: Vec<usize> = (1..=8).filter(|&g| matches!(self.s.g[g], Some(NodeOrToken::Node(_)))).collect();
        let all: Vec<usize> = (1..=8).filter(|&g| self.s.g[g].is_some()).collect();
        let g = *self.r.pick(&gs);
        let n = self.s.g[g].clone().unwrap().into_node().unwrap().children().len();
        if n == 0 {
            return;
        }
        let d = self.r.range(3, 8);
        let x = *self.r.pick(&all);
        let i = self.index(n);
        let e = match self.r.below(4) {
            0 => json!({"op":"replace_child","lo":i,"hi":i + 1,"xs":[x]}),
            1 => json!({"op":"insert_child","lo":i,"hi":i,"xs":[x]}),
            2 => json!({"op":"remove_child","lo":i,"hi":i + 1,"xs":[]}),
            _ => {
                let j = if self.r.chance(1, 2) { self.index(n) } else { (i + self.r.below(3)).min(n) };
                let xs: Vec<usize> = (0..self.r.below(3)).map(|_| *self.r.pick(&all)).collect();
                json!({"op":"splice","lo":i.min(j),"hi":i.max(j),"xs":xs})
            }
        };
        // lengths have to stay below the limit
        let len: u64 = all.iter().map(|&g| match self.s.g[g].as_ref().unwrap() {
            NodeOrToken::Node(n) => u32::from(n.text_len()) as u64,
            NodeOrToken::Token(t) => u32::from(t.text_len()) as u64,
        }).max().unwrap_or(0);
        if len > 500_000_000 {
            return;
        }
        let mut e = e;
        e["a"] = json!("gedit");
        e["g"] = json!(g);
        e["d"] = json!(d);
        self.go(e);
    }
    fn text(&mut self) {
        if self.giant {
            return;
        }
        let (l, _) = self.lang();
        let h = self.a_node();
        let Some((qs, t)) = self.slices(h) else { return };
        let at = |r: &mut Rng, t: &str| {
            let mut o = match r.below(6) {
                0 => 65535,
                1 => 65536,
                2 => 65537,
                3 => 0,
                4 => t.len(),
                _ => r.below(t.len() + 1),
            }.min(t.len());
            while !t.is_char_boundary(o) {
                o -= 1;
            }
            o
        };
        let os: Vec<usize> = (0..5).map(|_| at(&mut self.r, &t)).collect();
        let mut fs: Vec<u32> = CHARS.iter().map(|&c| c as u32).collect();
        fs.push('x' as u32);
        let same = rle(&t);
        let mut other = same.clone();
        let i = self.r.below(other.len().max(1));
        if !other.is_empty() {
            match self.r.below(3) {
                0 => other[i].1 += 1,
                1 if other[i].1 > 1 => other[i].1 -= 1,
                _ => other.insert(i, ('y' as u32, 1)),
            }
        }
        let cs: Vec<Value> = [same, other].iter().map(|t| t.iter().map(|q| json!([q.0, q.1])).collect()).collect();
        self.go(json!({"a":"text","h":h,"l":l,"qs":qs,"os":os,"fs":fs,"cs":cs}));
        if self.r.chance(1, 3) {
            let h2 = self.a_node();
            if let Some((qs2, _)) = if self.r.chance(1, 3) { Some((qs.clone(), String::new())) } else { self.slices(h2) } {
                let h2 = if qs2 == qs { h } else { h2 };
                self.go(json!({"a":"textcmp","h":h,"l":l,"qs":qs,"h2":h2,"qs2":qs2}));
            }
        }
    }
    fn slices(&mut self, h: usize) -> Option<(Vec<[usize; 2]>, String)> {
        let n = self.node(h)?;
        let mut t = guard(|| n.text().to_string()).ok()?;
        let mut qs = vec![];
        for _ in 0..self.r.below(3) {
            let mut p = [0, 0].map(|_| match self.r.below(5) {
                0 => 65536.min(t.len()),
                1 => 0,
                2 => t.len(),
                _ => self.r.below(t.len() + 1),
            });
            p.sort();
            for q in &mut p {
                while !t.is_char_boundary(*q) {
                    *q -= 1;
                }
            }
            t = t[p[0]..p[1]].to_string();
            qs.push(p);
        }
        Some((qs, t))
    }
    fn ptr(&mut self) {
        let ns = self.nodes();
        let f = *self.r.pick(&ns);
        let v = self.r.below(2);
        if !self.mutable && self.node(f).is_some_and(|n| !n.is_mutable()) {
            self.go(json!({"a":"ptr","f":f,"v":v}));
        }
    }
    fn disp(&mut self) {
        let h = self.a_handle();
        if !self.giant {
            self.go(json!({"a":"disp","h":h}));
        }
    }
    fn snap(&mut self) {
        let h = self.a_handle();
        let (l, _) = self.lang();
        let d = self.r.range(3, 8);
        self.go(json!({"a":"snap","h":h,"d":d,"l":l}));
    }
    fn copy(&mut self) {
        let h = self.a_node();
        let (l, v) = self.lang();
        let d = self.dest();
        let m = self.node(h).is_some_and(|n| n.is_mutable());
        let a = if m || self.r.chance(1, 2) { "csub" } else { "cfu" };
        self.go(json!({"a":a,"h":h,"d":d,"l":l,"v":v}));
    }
    fn repl(&mut self) {
        let h = self.a_handle();
        let (k, n) = match self.s.h[h].clone().unwrap() {
            NodeOrToken::Node(n) => (n.kind().0, 1),
            NodeOrToken::Token(t) => (t.kind().0, 0),
        };
        let u = match n {
            0 => U::tok(k, vec![('r' as u32, self.few())]),
            _ => {
                let x = self.unit(false);
                U::node(k, vec![(Rc::new(x), self.few())])
            }
        };
        if n == 0 && guard(|| self.s.h[h].as_ref().unwrap().parent().is_none()).unwrap_or(true) {
            return;
        }
        self.go(json!({"a":"green","d":2,"g":u.json(),"how":4,"share":0}));
        let (l, _) = self.lang();
        let d = self.r.range(3, 8);
        self.go(json!({"a":"repl","h":h,"g":2,"d":d,"l":l}));
    }
    /// A mutable handle that is not a root.
    fn edit(&mut self) {
        let hs: Vec<usize> = self.handles().into_iter().filter(|&h| match self.s.h[h].as_ref().unwrap() {
            NodeOrToken::Node(n) => n.is_mutable(),
            NodeOrToken::Token(t) => t.parent().is_none_or(|p| p.is_mutable()),
        }).collect();
        if hs.is_empty() {
            return;
        }
        let h = *self.r.pick(&hs);
        let (l, v) = self.lang();
        match self.r.below(8) {
            0 | 1 => self.go(json!({"a":"detach","h":h,"l":l,"v":v})),
            2 => {
                let Some(_) = self.node(h) else { return };
                let op = *self.r.pick(&["children", "children_with_tokens", "children_by_kind", "children_with_tokens_by_kind"]);
                // every removal copies the list of children
                let n = self.kids(h);
                if n < 3000 {
                    let k = if op.ends_with("kind") { self.kinds(l) } else { vec![] };
                    self.go(json!({"a":"loop","h":h,"l":l,"v":v,"op":op,"K":k}));
                }
            }
            _ => {
                let Some(x) = self.node(h) else { return };
                let n = self.kids(h);
                let lo = if n == 0 { 0 } else if self.r.chance(1, 5) { n } else { self.index(n) };
                let hi = match self.r.below(6) {
                    0 | 1 => lo,
                    2 if n > 0 => self.index(n).max(lo),
                    _ => (lo + self.r.below(3)).min(n),
                };
                let hi = if (hi - lo) * n > 3_000_000 { (lo + 3_000_000 / n).min(n) } else { hi };
                let top = x.ancestors().last().unwrap();
                let mut len = u32::from(top.text_range().len()) as u64;
                let mut ins: Vec<usize> = vec![];
                let mut here = 0;
                for _ in 0..self.r.below(3) {
                    let y = *self.r.pick(&hs);
                    let ye = self.s.h[y].clone().unwrap();
                    let above = x.ancestors().any(|a| NodeOrToken::Node(a) == ye);
                    let inside = ye.parent().is_some_and(|p| p == x);
                    if above || ins.iter().any(|&i| self.s.h[i] == self.s.h[y]) || ye.ancestors().any(|a| ins.iter().any(|&i| self.s.h[i] == Some(NodeOrToken::Node(a.clone())))) {
                        continue;
                    }
                    // what contains an element inserted before
                    if let NodeOrToken::Node(yn) = &ye {
                        if ins.iter().any(|&i| self.s.h[i].as_ref().unwrap().ancestors().any(|a| a == *yn)) {
                            continue;
                        }
                    }
                    let (ys, yf) = self.range(y);
                    len += (yf - ys) as u64;
                    if len >= (1 << 31) - 1 {
                        break;
                    }
                    here += inside as usize;
                    ins.push(y);
                }
                if lo + ins.len() + here + (hi - lo) > n && here > 0 {
                    return;
                }
                self.go(json!({"a":"splice","h":h,"lo":lo,"hi":hi,"ins":ins,"l":l}));
            }
        }
    }
    fn fresh(&mut self) {
        let u = U::node(self.kind(), vec![(Rc::new(self.unit(true)), self.few())]);
        self.go(json!({"a":"green","d":2,"g":u.json(),"how":4,"share":0}));
        let (l, v) = self.lang();
        let d = self.dest();
        self.go(json!({"a":"root","g":2,"d":d,"m":1,"l":l,"v":v}));
    }
    fn drop_one(&mut self) {
        let h = self.a_handle();
        if h != 1 {
            self.go(json!({"a":"drop","h":h}));
        }
    }

    pub fn session(&mut self) {
        self.go(json!({"a":"reset"}));
        let u = self.tree();
        self.u = Rc::new(u);
        let prof = self.prof.clone();
        let p = prof.as_str();
        let share = p == "C02";
        let u = (*self.u).clone();
        self.green(&u, 1, share);
        if matches!(p, "C01" | "C02" | "C03") {
            for _ in 0..3 {
                let x = if p == "C01" { (*self.u).clone() } else { self.variant() };
                let d = self.r.range(2, 8);
                self.green(&x, d, share);
            }
            self.gkids();
            self.geqs();
            if p == "C03" {
                for _ in 0..8 {
                    self.gedit();
                    if self.r.chance(1, 3) {
                        self.gkids();
                    }
                }
                self.geqs();
            }
        }
        self.mutable = match p {
            "C08" => true,
            "C01" | "C02" | "C03" | "C14" => false,
            _ => self.r.chance(1, 4),
        };
        let (l, v) = self.lang();
        self.go(json!({"a":"root","g":1,"d":1,"m":self.mutable as u8,"l":l,"v":v}));
        for _ in 0..self.r.range(3, 6) {
            self.goto(1, 3);
        }
        self.obs();
        let n = match p {
            "C01" | "C02" => 2,
            "C03" => 4,
            _ => 16,
        };
        for _ in 0..n {
            let w: &[usize] = match p {
                //        goto step seg skel posn obs eqs text ptr disp snap copy repl edit fresh drop
                "C01" => &[1, 0, 1, 2, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0, 0, 0],
                "C02" => &[1, 0, 1, 2, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0],
                "C03" => &[1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 3, 0, 9, 0, 0, 0],
                "C04" => &[4, 6, 5, 3, 3, 4, 0, 0, 0, 0, 0, 1, 0, 3, 1, 1],
                "C05" => &[4, 12, 4, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 3, 1, 1],
                "C06" => &[3, 2, 8, 8, 0, 1, 0, 0, 0, 0, 0, 1, 0, 3, 0, 1],
                "C07" => &[3, 2, 0, 0, 14, 1, 0, 0, 0, 0, 0, 1, 0, 2, 0, 1],
                "C08" => &[4, 2, 2, 2, 1, 5, 0, 1, 0, 1, 2, 0, 0, 14, 2, 1],
                "C09" => &[4, 1, 1, 2, 0, 4, 0, 0, 0, 1, 4, 6, 1, 8, 1, 1],
                "C10" => &[5, 5, 1, 0, 0, 1, 9, 0, 0, 0, 0, 2, 0, 3, 1, 1],
                "C11" => &[5, 5, 1, 1, 2, 1, 0, 1, 0, 0, 2, 3, 1, 8, 2, 6],
                "C13" => &[3, 1, 0, 0, 0, 0, 0, 12, 0, 0, 0, 0, 0, 2, 0, 1],
                "C14" => &[5, 5, 0, 0, 0, 0, 0, 0, 12, 0, 0, 1, 0, 0, 0, 1],
                "C15" => &[4, 6, 5, 4, 4, 4, 1, 1, 0, 0, 1, 2, 0, 4, 0, 1],
                _ => &[4, 1, 0, 1, 0, 1, 0, 3, 0, 10, 1, 1, 0, 3, 0, 1],
            };
            let total: usize = w.iter().sum();
            let mut k = self.r.below(total);
            let mut i = 0;
            while k >= w[i] {
                k -= w[i];
                i += 1;
            }
            match i {
                0 => {
                    let h = self.a_node();
                    self.goto(h, 3);
                }
                1 => self.step(),
                2 => self.seg(),
                3 => self.skel(),
                4 => self.position(),
                5 => self.obs(),
                6 => self.eqs(),
                7 => self.text(),
                8 => self.ptr(),
                9 => self.disp(),
                10 => self.snap(),
                11 => self.copy(),
                12 => self.repl(),
                13 => {
                    self.edit();
                    if self.r.chance(1, 3) {
                        self.obs();
                    }
                }
                14 => self.fresh(),
                _ => self.drop_one(),
            }
        }
        self.obs();
        self.go(json!({"a":"end"}));
    }
}
