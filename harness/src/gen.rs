//! Random sessions, weighted towards what a property talks about.
use crate::api::navs;
use crate::gv::*;
use crate::rng::Rng;
use crate::sess::*;
use rowan::NodeOrToken;
use serde_json::{Value, json};

pub type Weights = Vec<(&'static str, usize)>;

pub struct Profile {
    pub weights: Weights,
    pub max_size: usize,
    pub ops: (usize, usize),
    /// chance (of 16) that a root is mutable
    pub mutable: usize,
    /// chance (of 16) that a call is one that has to be refused
    pub misuse: usize,
    /// languages used: 0 raw only, 1 all
    pub typed: bool,
    /// observe all handles after every edit
    pub obs_after: bool,
    /// smallest language used
    pub lang_min: usize,
}

pub fn profile(p: &str) -> Profile {
    let mut pr = Profile {
        weights: vec![],
        max_size: 24,
        ops: (20, 60),
        mutable: 8,
        misuse: 0,
        typed: true,
        obs_after: false,
        lang_min: 0,
    };
    // everybody walks around, makes and drops handles
    let base: Weights = vec![("goto", 8), ("step", 8), ("stepc", 2), ("drop", 3), ("clone", 1), ("root", 1), ("green", 1)];
    let edits: Weights =
        vec![("detach", 5), ("splice", 9), ("loop", 2), ("move", 3), ("cfu", 2), ("csub", 1), ("newmut", 3)];
    let w: Weights = match p {
        "C03" => {
            pr.mutable = 5;
            vec![("gedit", 14), ("repl", 12), ("snap", 4), ("greens", 6), ("obs", 1), ("tree", 1), ("detach", 1), ("splice", 1), ("green", 3), ("greent", 4)]
        }
        "C04" => {
            pr.obs_after = true;
            pr.mutable = 11;
            [edits.clone(), vec![("obs", 8), ("dump", 6), ("seqs", 5), ("navs", 4), ("it", 4), ("itn", 12), ("itk", 2), ("stepc", 6), ("walk", 2), ("walkn", 6), ("tokat", 2), ("cover", 1), ("childat", 1), ("loop", 2)]].concat()
        }
        "C05" => {
            pr.mutable = 8;
            [edits.clone(), vec![("navs", 16), ("step", 20), ("stepc", 4), ("seqs", 5)]].concat()
        }
        "C06" => {
            pr.mutable = 5;
            vec![("it", 10), ("itn", 40), ("itc", 6), ("itk", 5), ("itd", 2), ("walk", 5), ("walkn", 40), ("seqs", 10), ("wholewalk", 4), ("gkids", 5), ("drop", 8), ("splice", 1), ("detach", 1)]
        }
        "C07" => {
            pr.mutable = 6;
            vec![("tokat", 10), ("cover", 10), ("childat", 10), ("splice", 2), ("detach", 2), ("cfu", 1)]
        }
        "C08" => {
            pr.obs_after = true;
            pr.mutable = 16;
            [edits.clone(), edits.clone(), vec![("obs", 2), ("dump", 4), ("tree", 3), ("drop", 5), ("hold", 1), ("greens", 1)]].concat()
        }
        "C09" => {
            pr.mutable = 6;
            pr.obs_after = true;
            [edits.clone(), vec![("cfu", 5), ("csub", 4), ("snap", 5), ("hold", 5), ("unhold", 1), ("greens", 6), ("obs", 3), ("dump", 4), ("tree", 4), ("root", 4), ("detach", 3), ("splice", 4)]].concat()
        }
        "C10" => {
            [edits.clone(), vec![("eqs", 14), ("goto", 20), ("clone", 3)]].concat()
        }
        "C13" => {
            pr.mutable = 4;
            vec![("text", 20), ("textcmp", 20), ("retext", 4), ("goto", 10)]
        }
        "C14" => {
            pr.mutable = 0;
            vec![("ptr", 40), ("csub", 4), ("root", 6), ("green", 2), ("step", 8), ("goto", 14), ("twin", 2)]
        }
        "C15" => {
            pr.lang_min = 1;
            [edits.clone(), vec![("ast", 16), ("acfu", 4), ("acsub", 4), ("navs", 6), ("seqs", 6), ("wholewalk", 2), ("walk", 2), ("walkn", 6), ("it", 3), ("itn", 8), ("itk", 3), ("obs", 4), ("dump", 3), ("tokat", 2), ("cover", 2), ("childat", 2), ("goto", 8)]].concat()
        }
        "C16" => {
            pr.mutable = 6;
            [edits.clone(), vec![("fmt", 30), ("ser", 14), ("sink", 24), ("gfmt", 14), ("greent", 4), ("snap", 3), ("goto", 10)]].concat()
        }
        "C02" => vec![("twin", 16), ("geqs", 10), ("green", 4), ("greent", 3), ("dropg", 3), ("gedit", 3), ("snap", 2)],
        "C17" => {
            pr.misuse = 6;
            pr.mutable = 8;
            pr.obs_after = true;
            [edits.clone(), vec![("obs", 2), ("dump", 3), ("tree", 2), ("greens", 1), ("repl", 3), ("misuse", 14), ("boom", 10), ("move", 4), ("greent", 1), ("seqs", 1), ("navs", 1)]].concat()
        }
        "C18" => {
            pr.misuse = 0;
            pr.mutable = 10;
            [edits.clone(), vec![("obs", 3), ("dump", 2), ("tree", 2), ("snap", 2), ("gedit", 1), ("drop", 8), ("mem", 8), ("aside", 40), ("boom", 24), ("move", 16)]].concat()
        }
        "C11" => {
            pr.misuse = 0;
            [edits.clone(), vec![("snap", 3), ("repl", 2), ("gedit", 2), ("dropg", 4), ("drop", 14), ("greent", 1), ("it", 3), ("itn", 8), ("itd", 4), ("walk", 2), ("walkn", 6), ("dump", 1), ("mem", 12), ("aside", 5), ("boom", 4)]].concat()
        }
        _ => vec![("obs", 1)],
    };
    pr.weights = [base, w].concat();
    pr
}

/// one session in this many has a big tree
const BIG: usize = 40;

pub struct Gen {
    pub r: Rng,
    pub s: Sess,
    pub p: Profile,
    pub kinds: Vec<u16>,
    pub roots_m: usize,
}

const SEQ_N: [&str; 11] = [
    "ancestors", "children", "children_with_tokens", "children_by_kind",
    "children_with_tokens_by_kind", "siblings_next", "siblings_prev", "siblings_with_tokens_next",
    "siblings_with_tokens_prev", "descendants", "descendants_with_tokens",
];
const SEQ_T: [&str; 3] =
    ["parent_ancestors", "siblings_with_tokens_next", "siblings_with_tokens_prev"];

impl Gen {
    pub fn new(seed: u64, s: Sess, p: Profile) -> Gen {
        Gen { r: Rng::new(seed), s, p, kinds: vec![], roots_m: 0 }
    }

    pub fn is_node(&self, h: usize) -> bool {
        matches!(self.s.h[h], Some(NodeOrToken::Node(_)))
    }
    pub fn live(&self) -> Vec<usize> {
        (1..=NH).filter(|&i| self.s.h[i].is_some()).collect()
    }
    pub fn pick_h(&mut self, f: impl Fn(&Gen, usize) -> bool) -> Option<usize> {
        let c: Vec<usize> = self.live().into_iter().filter(|&h| f(self, h)).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    pub fn free_h(&mut self) -> usize {
        if let Some(i) = (1..=NH).find(|&i| self.s.h[i].is_none()) {
            return i;
        }
        let h = self.r.range(1, NH);
        self.s.exec(&json!({"a":"drop","h":h}));
        h
    }
    pub fn slot_g(&mut self) -> usize {
        if let Some(i) = (1..=NG).find(|&i| self.s.g[i].is_none()) {
            return i;
        }
        self.r.range(1, NG)
    }
    pub fn pick_g(&mut self, f: impl Fn(&Green) -> bool) -> Option<usize> {
        let c: Vec<usize> =
            (1..=NG).filter(|&i| self.s.g[i].as_ref().is_some_and(&f)).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    pub fn lang(&mut self) -> usize {
        if self.p.typed { self.r.range(self.p.lang_min, 2) } else { 0 }
    }
    pub fn kindset(&mut self, l: usize) -> Value {
        let mut out = Vec::new();
        if !self.kinds.is_empty() {
            for _ in 0..self.r.range(1, 3) {
                let k = *self.r.pick(&self.kinds);
                let k = crate::api::tr(l as u8, k);
                if !out.contains(&k) {
                    out.push(k);
                }
            }
        }
        json!(out)
    }
    fn edited(&mut self) {
        for i in 1..=NI {
            if self.s.it[i].as_ref().is_some_and(|s| s.mutable) {
                // what they still give is not specified, but has to be there
                if self.r.chance(1, 2) {
                    let (n, v) = (self.r.range(1, 3), self.r.below(2));
                    self.s.exec(&json!({"a":"its","i":i,"n":n,"v":v}));
                    if self.r.chance(1, 2) {
                        continue;
                    }
                }
                self.s.exec(&json!({"a":"itd","i":i}));
            }
        }
    }
    pub fn new_green(&mut self) -> usize {
        let sh = random_shape(&mut self.r, self.p.max_size);
        let gv = random_tree(&mut self.r, &sh);
        kinds_of(&gv, &mut self.kinds);
        let d = self.slot_g();
        let m = self.r.below(4);
        self.s.exec(&json!({"a":"green","d":d,"g":gv.json(),"m":m}));
        d
    }

    pub fn session(&mut self) {
        self.kinds.clear();
        self.s.exec(&json!({"a":"reset"}));
        let big = self.r.chance(1, BIG);
        for i in 0..self.r.range(1, 2) {
            let g = if big && i == 0 {
                let gv = big_tree(&mut self.r);
                kinds_of(&gv, &mut self.kinds);
                let d = self.slot_g();
                let m = self.r.below(4);
                self.s.exec(&json!({"a":"green","d":d,"g":gv.json(),"m":m}));
                d
            } else {
                self.new_green()
            };
            let (d, l) = (self.free_h(), self.lang());
            let m = (self.r.below(16) < self.p.mutable) as usize;
            self.s.exec(&json!({"a":"root","g":g,"d":d,"m":m,"l":l,"v":self.r.below(2)}));
        }
        let n = if big { 14 } else { self.r.range(self.p.ops.0, self.p.ops.1) };
        let total: usize = self.p.weights.iter().map(|w| w.1).sum();
        for _ in 0..n {
            let mut x = self.r.below(total);
            let mut name = "";
            for (nm, w) in &self.p.weights {
                if x < *w {
                    name = nm;
                    break;
                }
                x -= w;
            }
            self.op(name);
        }
    }

    pub fn text_len(&self, h: usize) -> (u32, u32) {
        let r = guard(|| match &self.s.h[h] {
            Some(NodeOrToken::Node(n)) => n.text_range(),
            Some(NodeOrToken::Token(t)) => t.text_range(),
            None => rowan::TextRange::empty(0.into()),
        });
        r.map(|r| (r.start().into(), r.end().into())).unwrap_or((0, 0))
    }
    pub fn nkids(&self, h: usize) -> usize {
        match &self.s.h[h] {
            Some(NodeOrToken::Node(n)) => guard(|| n.green().children().len()).unwrap_or(0),
            _ => 0,
        }
    }
    /// a random path below the element of h
    fn path_below(&mut self, h: usize) -> Vec<usize> {
        let g = match read_cursor_green(self.s.h[h].as_ref().unwrap()) {
            Ok(g) => g,
            Err(()) => return vec![],
        };
        let mut p = vec![];
        let mut cur = &g;
        while let Gv::Node(_, c) = cur {
            if c.is_empty() || (!p.is_empty() && self.r.chance(1, 4)) {
                break;
            }
            let i = self.r.below(c.len());
            p.push(i);
            cur = &c[i];
        }
        p
    }

    pub fn op(&mut self, name: &str) {
        let l = self.lang();
        let v = self.r.below(2);
        let misuse = self.r.below(16) < self.p.misuse;
        match name {
            "green" => {
                self.new_green();
            }
            "greent" => {
                let sh = random_shape(&mut self.r, 4);
                let k = if self.kinds.is_empty() { 1 } else { *self.r.pick(&self.kinds) };
                let gv = Gv::Tok(k, random_text(&mut self.r, &sh));
                let d = self.slot_g();
                let m = *self.r.pick(&[0, 3]);
                self.s.exec(&json!({"a":"green","d":d,"g":gv.json(),"m":m}));
            }
            "root" => {
                if let Some(g) = self.pick_g(|g| matches!(g, NodeOrToken::Node(_))) {
                    let d = self.free_h();
                    let m = (self.r.below(16) < self.p.mutable) as usize;
                    self.s.exec(&json!({"a":"root","g":g,"d":d,"m":m,"l":l,"v":v}));
                }
            }
            "newmut" => {
                let sh = random_shape(&mut self.r, 5);
                let gv = random_tree(&mut self.r, &sh);
                kinds_of(&gv, &mut self.kinds);
                let g = self.slot_g();
                let m = self.r.below(4);
                self.s.exec(&json!({"a":"green","d":g,"g":gv.json(),"m":m}));
                let d = self.free_h();
                self.s.exec(&json!({"a":"root","g":g,"d":d,"m":1,"l":l,"v":v}));
                if self.r.chance(1, 2) {
                    self.s.exec(&json!({"a":"dropg","g":g}));
                }
                // sometimes a loose token
                if self.r.chance(1, 3) && self.nkids(d) > 0 {
                    let d2 = self.free_h();
                    if self.s.h[d].is_none() {
                        return;
                    }
                    let i = self.r.below(self.nkids(d));
                    self.s.exec(&json!({"a":"goto","h":d,"p":[i],"m":0,"d":d2,"l":0,"v":v}));
                    self.s.exec(&json!({"a":"detach","h":d2,"l":l,"v":v}));
                }
            }
            "clone" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let d = self.r.range(1, NH);
                    self.s.exec(&json!({"a":"step","h":h,"op":"clone","K":[],"d":d,"l":l,"v":v}));
                }
            }
            "drop" => {
                if self.live().len() > 1 {
                    if let Some(h) = self.pick_h(|_, _| true) {
                        self.s.exec(&json!({"a":"drop","h":h}));
                    }
                }
            }
            "dropg" => {
                if let Some(g) = self.pick_g(|_| true) {
                    self.s.exec(&json!({"a":"dropg","g":g}));
                }
            }
            "goto" => {
                if let Some(h) = self.pick_h(|g, h| g.nkids(h) > 0) {
                    let p = self.path_below(h);
                    let d = if self.r.chance(1, 6) { self.r.range(1, NH) } else { self.free_h() };
                    if self.s.h[h].is_some() {
                        let m = self.r.below(3);
                        self.s.exec(&json!({"a":"goto","h":h,"p":p,"m":m,"d":d,"l":l,"v":v}));
                    }
                }
            }
            "step" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let op = if self.r.chance(1, 12) {
                        "clone"
                    } else {
                        let ops = navs(self.is_node(h), l, v);
                        *self.r.pick(&ops[..ops.len() - 3])
                    };
                    let k = if op.ends_with("kind") { self.kindset(l) } else { json!([]) };
                    let d = match self.r.below(4) {
                        0 => 0,
                        1 => self.r.range(1, NH),
                        2 => h,
                        _ => self.free_h(),
                    };
                    if self.s.h[h].is_some() {
                        self.s.exec(&json!({"a":"step","h":h,"op":op,"K":k,"d":d,"l":l,"v":v}));
                    }
                }
            }
            "stepc" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let op = if self.is_node(h) && self.r.chance(1, 2) {
                        "to_next_sibling"
                    } else {
                        "to_next_sibling_or_token"
                    };
                    let d = if self.r.chance(1, 3) { h } else { self.r.range(1, NH) };
                    self.s.exec(&json!({"a":"stepc","h":h,"op":op,"K":[],"d":d,"l":0,"v":v}));
                }
            }
            "navs" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let ops = navs(self.is_node(h), l, v);
                    let mut rs = vec![];
                    for op in ops {
                        let k = if op.ends_with("kind") { self.kindset(l) } else { json!([]) };
                        rs.push(json!({"op":op,"K":k}));
                    }
                    self.s.exec(&json!({"a":"navs","h":h,"l":l,"v":v,"rs":rs}));
                }
            }
            "seqs" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let ops: Vec<&str> = if self.is_node(h) { SEQ_N.to_vec() } else { SEQ_T.to_vec() };
                    let mut rs = vec![];
                    for op in ops {
                        let k = if op.ends_with("kind") { self.kindset(l) } else { json!([]) };
                        let dep = (l > 0 && self.r.chance(1, 2)) as usize;
                        rs.push(json!({"op":op,"K":k,"keep":self.r.below(2),"dep":dep}));
                    }
                    self.s.exec(&json!({"a":"seqs","h":h,"l":l,"v":v,"rs":rs}));
                }
            }
            "wholewalk" => {
                if let Some(h) = self.pick_h(|g, h| g.is_node(h)) {
                    self.s.exec(&json!({"a":"wholewalk","h":h,"tok":self.r.below(2),"l":l,"v":v}));
                }
            }
            "it" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let op = if !self.is_node(h) {
                        *self.r.pick(&SEQ_T)
                    } else if self.r.chance(2, 3) {
                        *self.r.pick(&["children", "children_with_tokens"])
                    } else {
                        *self.r.pick(&SEQ_N)
                    };
                    let k = if op.ends_with("kind") { self.kindset(l) } else { json!([]) };
                    let i = self.r.range(1, NI);
                    if self.s.it[i].is_some() {
                        self.s.exec(&json!({"a":"itd","i":i}));
                    }
                    self.s.exec(&json!({"a":"it","i":i,"h":h,"op":op,"K":k,"l":l,"v":v}));
                }
            }
            "itn" | "walkn" | "itd" | "itc" | "itk" => {
                let walk = name == "walkn";
                let c: Vec<usize> = (1..=NI)
                    .filter(|&i| {
                        self.s.it[i].as_ref().is_some_and(|s| match (&s.kind, name) {
                            (_, "itd") => true,
                            _ if s.stale => false,
                            (ItKind::Seq(_), "itc") => s.clonable,
                            (ItKind::Seq(it), "itk") => it.can_filter(),
                            (ItKind::Walk(_), _) => walk,
                            (ItKind::Seq(_), _) => !walk,
                        })
                    })
                    .collect();
                if c.is_empty() {
                    return;
                }
                let i = *self.r.pick(&c);
                match name {
                    "itd" => self.s.exec(&json!({"a":"itd","i":i})),
                    "itc" => {
                        let j = self.r.range(1, NI);
                        if j != i {
                            self.s.exec(&json!({"a":"itc","i":i,"j":j}))
                        }
                    }
                    "itk" => {
                        let lg = self.s.it[i].as_ref().unwrap().lg as usize;
                        let k = self.kindset(lg);
                        self.s.exec(&json!({"a":"itk","i":i,"K":k}))
                    }
                    _ => {
                        // a step whose result is kept or dropped, and sometimes kept and dropped later
                        let d = if self.r.chance(1, 2) { 0 } else { self.r.range(1, NH) };
                        if !walk && self.r.chance(1, 6) {
                            let op = *self.r.pick(&["nth", "nth", "hint", "hint", "last", "count", "rest"]);
                            let n = if self.r.chance(1, 8) { 7 } else { self.r.below(3) };
                            self.s.exec(&json!({"a":"itx","i":i,"op":op,"n":n,"d":d,"v":v}));
                            return;
                        }
                        if walk && self.s.it[i].as_ref().unwrap().entered && self.r.chance(1, 4) {
                            self.s.exec(&json!({"a":"walks","i":i}));
                        }
                        self.s.exec(&json!({"a":name,"i":i,"d":d,"v":v}));
                    }
                }
            }
            "walk" => {
                if let Some(h) = self.pick_h(|g, h| g.is_node(h)) {
                    let i = self.r.range(1, NI);
                    if self.s.it[i].is_some() {
                        self.s.exec(&json!({"a":"itd","i":i}));
                    }
                    self.s.exec(&json!({"a":"walk","i":i,"h":h,"tok":self.r.below(2),"l":l}));
                }
            }
            "obs" => {
                let txt = self.r.chance(1, 4) as usize;
                self.s.exec(&json!({"a":"obs","l":l,"v":v,"txt":txt}));
            }
            "dump" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    self.s.exec(&json!({"a":"dump","h":h,"m":self.r.below(3),"l":l}));
                }
            }
            "tree" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    self.s.exec(&json!({"a":"tree","h":h}));
                }
            }
            "hold" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let d = NG + self.r.range(1, NK);
                    self.s.exec(&json!({"a":"hold","h":h,"d":d,"l":l}));
                }
            }
            "unhold" => {
                if let Some(i) = (1..=NK).find(|&i| self.s.held[i].is_some()) {
                    self.s.exec(&json!({"a":"unhold","g":NG + i}));
                }
            }
            "greens" => self.s.exec(&json!({"a":"greens"})),
            "cfu" => {
                if let Some(h) = self.pick_h(|g, h| g.is_node(h) && (misuse || !g.s.is_mutable(h))) {
                    let d = self.free_h();
                    if self.s.h[h].is_some() {
                        self.s.exec(&json!({"a":"cfu","h":h,"d":d,"l":l}));
                    }
                }
            }
            "csub" => {
                if let Some(h) = self.pick_h(|g, h| g.is_node(h)) {
                    let d = self.free_h();
                    if self.s.h[h].is_some() {
                        self.s.exec(&json!({"a":"csub","h":h,"d":d,"l":l}));
                    }
                }
            }
            "snap" => {
                if let Some(h) = self.pick_h(|_, _| true) {
                    let d = self.slot_g();
                    self.s.exec(&json!({"a":"snap","h":h,"d":d,"l":l}));
                }
            }
            "detach" => {
                if let Some(h) = self.pick_h(|g, h| misuse || g.s.is_mutable(h)) {
                    self.edited();
                    self.s.exec(&json!({"a":"detach","h":h,"l":l,"v":v}));
                    self.after_edit(l, v);
                }
            }
            "splice" => {
                let Some(h) = self.pick_h(|g, h| g.is_node(h) && (misuse || g.s.is_mutable(h))) else {
                    return;
                };
                let n = self.nkids(h);
                let lo = if misuse && self.r.chance(1, 2) { self.r.range(0, n + 2) } else { self.r.range(0, n) };
                let hi = match self.r.below(4) {
                    0 | 1 => lo,
                    2 => (lo + 1).min(n + 1).max(lo),
                    _ => lo + self.r.below(n + 2),
                };
                let mut ins = vec![];
                for _ in 0..self.r.below(4) {
                    let c = self.pick_h(|g, x| {
                        misuse || (g.s.is_mutable(x) && !g.above(x, h))
                    });
                    if let Some(c) = c {
                        ins.push(c);
                    }
                }
                self.edited();
                self.s.exec(&json!({"a":"splice","h":h,"lo":lo,"hi":hi,"ins":ins,"l":l,"v":v}));
                self.after_edit(l, v);
            }
            "loop" => {
                if let Some(h) = self.pick_h(|g, h| g.is_node(h) && g.s.is_mutable(h)) {
                    let op = *self.r.pick(&["children", "children_with_tokens", "children_by_kind", "children_with_tokens_by_kind"]);
                    let k = if op.ends_with("kind") { self.kindset(l) } else { json!([]) };
                    let all = self.r.chance(1, 3);
                    let mask: Vec<usize> =
                        (0..self.nkids(h) + 2).map(|_| if all { 1 } else { self.r.below(2) }).collect();
                    self.edited();
                    let keep = self.r.below(2);
                    self.s.exec(&json!({"a":"loop","h":h,"op":op,"K":k,"mask":mask,"l":l,"v":v,"keep":keep}));
                    self.after_edit(l, v);
                }
            }
            "repl" => {
                let Some(h) = self.pick_h(|g, h| g.is_node(h) || g.not_root(h)) else { return };
                let node = self.is_node(h);
                let k = guard(|| match self.s.h[h].as_ref().unwrap() {
                    NodeOrToken::Node(n) => n.kind().0,
                    NodeOrToken::Token(t) => t.kind().0,
                })
                .unwrap_or(0);
                let c = self.pick_g(|g| {
                    g.as_node().is_some() == node
                        && (misuse
                            || match g {
                                NodeOrToken::Node(n) => n.kind().0,
                                NodeOrToken::Token(t) => t.kind().0,
                            } == k)
                });
                let g = match c {
                    Some(g) if self.r.chance(3, 4) => g,
                    _ => {
                        let sh = random_shape(&mut self.r, 6);
                        let gv = if node {
                            match random_tree(&mut self.r, &sh) {
                                Gv::Node(_, c) => Gv::Node(k, c),
                                t => t,
                            }
                        } else {
                            Gv::Tok(k, random_text(&mut self.r, &sh))
                        };
                        kinds_of(&gv, &mut self.kinds);
                        let g = self.slot_g();
                        let m = self.r.below(4);
                        self.s.exec(&json!({"a":"green","d":g,"g":gv.json(),"m":m}));
                        g
                    }
                };
                let d = self.slot_g();
                self.s.exec(&json!({"a":"repl","h":h,"g":g,"d":d,"l":l}));
            }
            "gedit" => {
                let Some(g) = self.pick_g(|g| matches!(g, NodeOrToken::Node(_))) else { return };
                let n = match &self.s.g[g] {
                    Some(NodeOrToken::Node(n)) => n.children().len(),
                    _ => 0,
                };
                let have: Vec<usize> = (1..=NG).filter(|&i| self.s.g[i].is_some()).collect();
                let size = |gen_: &Gen, i: usize| gen_.s.g[i].as_ref().map(|g| Gv::read_green(g).size()).unwrap_or(0);
                let (op, lo, hi, nargs) = match self.r.below(4) {
                    0 if n > 0 => {
                        let i = self.r.below(n);
                        ("replace_child", i, i + 1, 1)
                    }
                    1 => {
                        let i = self.r.range(0, n);
                        ("insert_child", i, i, 1)
                    }
                    2 if n > 0 => {
                        let i = self.r.below(n);
                        ("remove_child", i, i + 1, 0)
                    }
                    _ => {
                        let mut lo = self.r.range(0, n);
                        let mut hi = self.r.range(lo, n);
                        let mut op = *self.r.pick(&["splice", "splice_incl", "splice_from", "splice_to", "splice_to_incl", "splice_full", "splice_excl", "splice_excl_incl"]);
                        match op {
                            "splice_from" => hi = n,
                            "splice_to" | "splice_to_incl" => lo = 0,
                            "splice_full" => {
                                lo = 0;
                                hi = n
                            }
                            _ => {}
                        }
                        if op.ends_with("incl") && hi == lo {
                            op = "splice";
                        }
                        (op, lo, hi, self.r.below(4))
                    }
                };
                let xs: Vec<usize> = (0..nargs).map(|_| *self.r.pick(&have)).collect();
                let total: usize = size(self, g) + xs.iter().map(|&x| size(self, x)).sum::<usize>();
                if total > 60 {
                    let d = *self.r.pick(&have);
                    self.s.exec(&json!({"a":"dropg","g":d}));
                    return;
                }
                let d = self.slot_g();
                self.s.exec(&json!({"a":"gedit","g":g,"op":op,"lo":lo,"hi":hi,"xs":xs,"d":d}));
            }
            "tokat" | "cover" | "childat" => {
                let Some(h) = self.pick_h(|g, h| g.is_node(h)) else { return };
                let (s, e) = self.text_len(h);
                let mut rs = vec![];
                if name == "tokat" {
                    for o in s..=e {
                        if e - s < 16 || self.r.chance(16, (e - s) as usize) {
                            rs.push(json!({"o":o}));
                        }
                    }
                } else {
                    let small = e - s < 6;
                    for a in s..=e {
                        for b in a..=e {
                            if small || self.r.chance(20, ((e - s) * (e - s) / 2) as usize) {
                                rs.push(json!({"s":a,"e":b}));
                            }
                        }
                    }
                }
                self.s.exec(&json!({"a":name,"h":h,"l":l,"v":v,"rs":rs}));
            }
            "aside" => {
                let act = *self.r.pick(&["detach", "detach", "detach", "splice", "splice", "drop", "drop", "walk", "fmt"]);
                let edits = act == "detach" || act == "splice";
                let op = *self.r.pick(crate::extra::CALLS);
                let op = if l == 0 && (op == "ser" || op.starts_with("ast")) { "chunks" } else { op };
                // the handle the operation starts from is not needed any more
                let own = matches!(op, "children_by_kind" | "children_with_tokens_by_kind" | "chunks" | "find" | "ast_children");
                let fits = |g: &Gen, h: usize| (!edits || g.s.is_mutable(h)) && g.is_node(h);
                let sib = op.starts_with("next_sibling");
                let good = |g: &Gen, h: usize| fits(g, h) && if sib { g.has_next(h) } else { g.nkids(h) > 1 };
                let h = match self.pick_h(good) {
                    Some(h) if self.r.chance(5, 6) => h,
                    _ => match self.pick_h(fits) {
                        Some(h) => h,
                        None => return,
                    },
                };
                let can = |g: &Gen, x: usize| (!edits || g.s.is_mutable(x)) && (act != "drop" || own || x != h);
                let near = self.r.chance(1, 2);
                let same = self.r.chance(1, 3);
                let vic = match self.pick_h(|g, x| can(g, x) && if act == "drop" { same && x == h } else { near && g.near(x, h) }) {
                    Some(x) => x,
                    None => match self.pick_h(can) {
                        Some(x) => x,
                        None => return,
                    },
                };
                let (mut to, mut at) = (0, 0);
                if act == "splice" {
                    let Some(t) = self.pick_h(|g, x| g.s.is_mutable(x) && g.is_node(x) && !g.above(vic, x)) else { return };
                    // the place exists even if the element comes from the same node
                    to = t;
                    let n = self.nkids(t);
                    at = self.r.below(n.max(1));
                }
                let mut k = self.kindset(l);
                if self.r.chance(1, 2) {
                    k = json!([]);
                }
                let n = self.r.range(1, if op.contains("kind") || op.starts_with("ast") { 3 } else { 8 });
                if edits {
                    self.edited();
                }
                self.s.exec(&json!({"a":"aside","h":h,"act":act,"vic":vic,"to":to,"at":at,"op":op,"K":k,"n":n,"l":l,"v":v}));
                self.after_edit(l, v);
            }
            // the children of one node go to another, taken from a running iterator
            "move" => {
                let some = |g: &Gen, h: usize| g.is_node(h) && g.nkids(h) > 0;
                let odd = self.p.misuse > 0 && self.r.chance(1, self.p.misuse);
                let Some(h) = self.pick_h(|g, h| g.is_node(h) && (odd || g.s.is_mutable(h))) else { return };
                let Some(from) = self.pick_h(|g, x| some(g, x) && (odd || g.s.is_mutable(x))) else { return };
                if self.same(h, from) {
                    return;
                }
                // what is inserted below itself is refused
                if !odd && self.above(from, h) && self.r.chance(3, 4) {
                    return;
                }
                let k = self.nkids(h);
                let hi = self.r.below(k + 1);
                let lo = if self.r.chance(1, 2) { hi } else { self.r.below(hi + 1) };
                let (lo, hi) = if odd && self.r.chance(1, 4) { (k + 1, k + 1) } else { (lo, hi) };
                let op = *self.r.pick(&[
                    "children", "children_with_tokens", "children_with_tokens", "children_by_kind",
                    "children_with_tokens_by_kind",
                ]);
                let kinds = self.kindset(l);
                let n = if lo == hi && self.r.chance(1, 2) { self.r.range(1, 5) } else { 0 };
                self.edited();
                self.s.exec(&json!({"a":"move","h":h,"lo":lo,"hi":hi,"from":from,"op":op,"K":kinds,"n":n,"l":l,"v":v}));
                self.after_edit(l, v);
            }
            "eqs" => self.s.exec(&json!({"a":"eqs","l":l,"v":v})),
            "mem" => {
                // iterators hold elements of their own
                let live: Vec<usize> = (1..=NI).filter(|&i| self.s.it[i].is_some()).collect();
                if live.is_empty() || self.r.chance(1, 2) {
                    for i in live {
                        self.s.exec(&json!({"a":"itd","i":i}));
                    }
                    self.s.exec(&json!({"a":"mem"}));
                }
            }
            _ => crate::extra::generate(self, name, l, v),
        }
    }

    fn after_edit(&mut self, l: usize, v: usize) {
        if self.p.obs_after {
            self.s.exec(&json!({"a":"obs","l":l,"v":v,"txt":0}));
            if self.r.chance(1, 3) {
                if let Some(h) = self.pick_h(|g, h| g.s.is_mutable(h)) {
                    self.s.exec(&json!({"a":"dump","h":h,"m":self.r.below(3),"l":l}));
                }
            }
        }
    }
    pub fn not_root(&self, h: usize) -> bool {
        guard(|| match self.s.h[h].as_ref().unwrap() {
            NodeOrToken::Node(n) => n.parent().is_some(),
            NodeOrToken::Token(t) => t.parent().is_some(),
        })
        .unwrap_or(false)
    }
    fn has_next(&self, h: usize) -> bool {
        guard(|| self.s.h[h].as_ref().unwrap().next_sibling_or_token().is_some()).unwrap_or(false)
    }
    /// is x a child or sibling of h, or above it?
    fn near(&self, x: usize, h: usize) -> bool {
        self.above(x, h)
            || guard(|| {
                let (x, h) = (self.s.h[x].as_ref().unwrap(), self.s.h[h].as_ref().unwrap());
                let p = x.parent().map(NodeOrToken::Node);
                p.is_some() && (p == h.parent().map(NodeOrToken::Node) || p.as_ref() == Some(h))
            })
            .unwrap_or(false)
    }
    fn same(&self, x: usize, h: usize) -> bool {
        guard(|| self.s.h[x].as_ref().unwrap() == self.s.h[h].as_ref().unwrap()).unwrap_or(false)
    }
    /// is the element of x the one of h or above it?
    pub fn above(&self, x: usize, h: usize) -> bool {
        guard(|| {
            let x = self.s.h[x].as_ref().unwrap();
            let mut cur = Some(self.s.h[h].clone().unwrap());
            while let Some(c) = cur {
                if &c == x {
                    return true;
                }
                cur = c.parent().map(NodeOrToken::Node);
            }
            false
        })
        .unwrap_or(false)
    }
}
