//! Scenarios and small trees enumerated by TLC, performed on the real library.
use crate::api::{navs, tr};
use crate::r#gen::Gen;
use crate::gv::*;
use crate::sess::*;
use rowan::NodeOrToken;
use serde_json::{Value, json};

const SEQ_N: [&str; 11] = [
    "ancestors", "children", "children_with_tokens", "children_by_kind",
    "children_with_tokens_by_kind", "siblings_next", "siblings_prev", "siblings_with_tokens_next",
    "siblings_with_tokens_prev", "descendants", "descendants_with_tokens",
];
const SEQ_T: [&str; 3] =
    ["parent_ancestors", "siblings_with_tokens_next", "siblings_with_tokens_prev"];

fn paths(g: &Gv, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, bool)>) {
    out.push((p.clone(), g.is_node()));
    if let Gv::Node(_, c) = g {
        for (i, c) in c.iter().enumerate() {
            p.push(i);
            paths(c, p, out);
            p.pop();
        }
    }
}

impl Gen {
    /// More handles on an element than a counter can count, all but a few of them forgotten.
    pub fn flood(&mut self, which: usize, green: bool, n: usize) {
        let s = &mut self.s;
        let t = |n: usize| json!({"c":[],"n":0,"k":1,"t":[97 + n]});
        let inner = json!({"n":1,"k":3,"c":[t(1), t(2)],"t":[]});
        let g = json!({"n":1,"k":2,"c":[t(0), inner, t(3)],"t":[]});
        let path = [json!([]), json!([1]), json!([1, 1])][which % 3].clone();
        let m = which / 3 % 2;
        s.exec(&json!({"a":"reset"}));
        s.exec(&json!({"a":"green","d":1,"g":g,"m":0}));
        s.exec(&json!({"a":"root","g":1,"d":1,"m":m,"l":0,"v":0}));
        s.exec(&json!({"a":"goto","h":1,"p":path,"m":0,"d":2,"l":0,"v":0}));
        if green {
            s.exec(&json!({"a":"snap","h":1,"d":2,"l":0}));
            s.exec(&json!({"a":"drop","h":1}));
            s.exec(&json!({"a":"drop","h":2}));
            s.exec(&json!({"a":"flood","g":2,"n":n}));
            s.exec(&json!({"a":"dropg","g":1}));
            s.exec(&json!({"a":"mem"}));
            s.exec(&json!({"a":"root","g":2,"d":1,"m":m,"l":0,"v":0}));
            s.exec(&json!({"a":"obs","l":0,"v":0,"txt":1}));
        } else {
            s.exec(&json!({"a":"dropg","g":1}));
            s.exec(&json!({"a":"step","h":2,"op":"clone","K":[],"d":3,"l":0,"v":0}));
            s.exec(&json!({"a":"drop","h":1}));
            s.exec(&json!({"a":"flood","h":2,"n":n}));
            s.exec(&json!({"a":"mem"}));
            s.exec(&json!({"a":"drop","h":3}));
            s.exec(&json!({"a":"mem"}));
            s.exec(&json!({"a":"obs","l":0,"v":0,"txt":1}));
            s.exec(&json!({"a":"goto","h":2,"p":[],"m":0,"d":4,"l":0,"v":0}));
            s.exec(&json!({"a":"navs","h":2,"l":0,"v":0,"rs":navs(which % 3 < 2, 0, 0).into_iter().filter(|o| !o.ends_with("kind")).map(|op| json!({"op":op,"K":[]})).collect::<Vec<_>>()}));
            s.exec(&json!({"a":"mem"}));
        }
    }

    /// The operations of a scenario, with everything observed after each edit.
    pub fn scenario(&mut self, cmds: &[Value], idx: usize, prof: &str) {
        self.s.exec(&json!({"a":"reset"}));
        let mut l = idx % 3;
        if prof == "C15" {
            l = 1 + idx % 2;
        }
        let v = (idx / 3) % 2;
        for c in cmds {
            let mut c = c.clone();
            let o = c.as_object_mut().unwrap();
            if o.contains_key("l") {
                o.insert("l".into(), json!(l));
            }
            if o.contains_key("v") {
                o.insert("v".into(), json!(v));
            }
            let op = c["op"].as_str().unwrap_or("");
            if l == 0 && (op == "ser" || op == "ast_children") {
                c["l"] = json!(1);
            }
            // all kinds
            let l = c["l"].as_u64().unwrap_or(l as u64) as usize;
            if c["K"] == json!([-1]) {
                c["K"] = (1..10).map(|k| tr(l as u8, k)).collect();
            }
            let a = c["a"].as_str().unwrap().to_string();
            self.s.exec(&c);
            if matches!(a.as_str(), "aside" | "boom" | "move") {
                self.s.exec(&json!({"a":"obs","l":l,"v":v,"txt":0}));
                self.s.exec(&json!({"a":"mem"}));
            }
            let edit = matches!(a.as_str(), "detach" | "splice" | "loop");
            if edit || (prof == "C11" && matches!(a.as_str(), "drop" | "step" | "stepc" | "csub" | "cfu")) {
                match prof {
                    "C10" => self.s.exec(&json!({"a":"eqs","l":l,"v":v})),
                    "C11" => self.s.exec(&json!({"a":"mem"})),
                    _ => self.s.exec(&json!({"a":"obs","l":l,"v":v,"txt":0})),
                }
            }
        }
        match prof {
            "C11" => {
                self.s.exec(&json!({"a":"mem"}));
                return;
            }
            "C09" => self.s.exec(&json!({"a":"greens"})),
            "C10" => {
                // handles to the same elements by other routes
                let live = self.live();
                for h in live {
                    let d = self.free_h();
                    if self.s.h[h].is_some() && self.s.h[d].is_none() {
                        let op = if (h + idx) % 2 == 0 { "clone" } else { "parent" };
                        self.s.exec(&json!({"a":"step","h":h,"op":op,"K":[],"d":d,"l":l,"v":v}));
                    }
                }
                self.s.exec(&json!({"a":"eqs","l":l,"v":v}));
            }
            "C05" => {
                for h in self.live() {
                    self.all_navs(h, l, v);
                }
            }
            _ => {}
        }
        let live = self.live();
        for (i, h) in live.iter().enumerate() {
            if !self.not_root(*h) || i == 0 {
                self.s.exec(&json!({"a":"dump","h":h,"m":(idx + h) % 3,"l":l}));
            }
        }
        if prof == "C09" {
            for h in live {
                self.s.exec(&json!({"a":"tree","h":h}));
            }
        }
    }

    fn kset(&self, l: usize, i: usize) -> Value {
        if self.kinds.is_empty() {
            return json!([]);
        }
        json!([tr(l as u8, self.kinds[i % self.kinds.len()])])
    }

    fn all_navs(&mut self, h: usize, l: usize, v: usize) {
        let mut rs = vec![];
        for op in navs(self.is_node(h), l, v) {
            if op.ends_with("kind") {
                for i in 0..self.kinds.len().min(3) {
                    rs.push(json!({"op":op,"K":self.kset(l, i)}));
                }
            } else {
                rs.push(json!({"op":op,"K":[]}));
            }
        }
        self.s.exec(&json!({"a":"navs","h":h,"l":l,"v":v,"rs":rs}));
    }

    /// Everything a property asks about, at every element of one tree.
    pub fn tree(&mut self, gv: &Gv, idx: usize, prof: &str) {
        // give elements kinds that differ by place, so that filters have something to do
        let mut gv = gv.clone();
        let mut n = idx;
        rekind(&mut gv, &mut n);
        self.kinds.clear();
        kinds_of(&gv, &mut self.kinds);
        let mut ps = vec![];
        paths(&gv, &mut vec![], &mut ps);
        let l = if prof == "C15" || prof == "C14" { 1 + idx % 2 } else { idx % 3 };
        let v = (idx / 3) % 2;
        let both = !matches!(prof, "C14" | "C16" | "C03");
        for m in 0..=(both as usize) {
            self.s.exec(&json!({"a":"reset"}));
            self.s.exec(&json!({"a":"green","d":1,"g":gv.json(),"m":idx % 4}));
            self.s.exec(&json!({"a":"root","g":1,"d":1,"m":m,"l":l,"v":v}));
            if prof == "C03" {
                self.tree_c03(&gv, &ps, l, idx);
                return;
            }
            if prof == "C14" {
                // every pair of pointer target and tree: this tree, an equal one, a subtree
                self.s.exec(&json!({"a":"green","d":2,"g":gv.json(),"m":(idx + 1) % 4}));
                self.s.exec(&json!({"a":"root","g":2,"d":2,"m":0,"l":l,"v":v}));
            }
            for (i, (p, node)) in ps.iter().enumerate() {
                let h = 3;
                self.s.exec(&json!({"a":"goto","h":1,"p":p,"m":(i + idx) % 3,"d":h,"l":l,"v":v}));
                if self.s.h[h].is_none() {
                    return;
                }
                match prof {
                    "C04" => {
                        self.s.exec(&json!({"a":"obs","l":l,"v":v,"txt":1}));
                        self.s.exec(&json!({"a":"dump","h":h,"m":i % 3,"l":l}));
                    }
                    "C05" => {
                        self.all_navs(h, l, v);
                        let op = if *node { "ancestors" } else { "parent_ancestors" };
                        let rs = json!([{"op":op,"K":[],"keep":i % 2,"dep":0}]);
                        self.s.exec(&json!({"a":"seqs","h":h,"l":l,"v":(i + v) % 2,"rs":rs}));
                    }
                    "C06" => {
                        let ops: Vec<&str> = if *node { SEQ_N.to_vec() } else { SEQ_T.to_vec() };
                        let rs: Vec<Value> = ops
                            .into_iter()
                            .map(|op| json!({"op":op,"K":if op.ends_with("kind") { self.kset(l, i) } else { json!([]) },"keep":(i + m) % 2,"dep":i % 2}))
                            .collect();
                        self.s.exec(&json!({"a":"seqs","h":h,"l":l,"v":v,"rs":rs}));
                        if *node {
                            for tok in 0..2 {
                                self.s.exec(&json!({"a":"wholewalk","h":h,"tok":tok,"l":l,"v":v}));
                                self.skips(h, tok, l, v, gv.size());
                            }
                            self.iters(h, l, v, i);
                        }
                    }
                    "C07" if *node => {
                        let (s, e) = self.text_len(h);
                        let rs: Vec<Value> = (s..=e).map(|o| json!({"o":o})).collect();
                        self.s.exec(&json!({"a":"tokat","h":h,"l":l,"v":v,"rs":rs}));
                        let rs: Vec<Value> =
                            (s..=e).flat_map(|a| (a..=e).map(move |b| json!({"s":a,"e":b}))).collect();
                        self.s.exec(&json!({"a":"cover","h":h,"l":l,"v":v,"rs":rs}));
                        self.s.exec(&json!({"a":"childat","h":h,"l":l,"v":v,"rs":rs}));
                    }
                    "C10" => {
                        self.s.exec(&json!({"a":"goto","h":1,"p":p,"m":(i + idx + 1) % 3,"d":4,"l":l,"v":v}));
                        for (j, (q, _)) in ps.iter().enumerate() {
                            if j < 12 {
                                self.s.exec(&json!({"a":"goto","h":1,"p":q,"m":(j + idx) % 3,"d":5 + j,"l":l,"v":v}));
                            }
                        }
                        self.s.exec(&json!({"a":"eqs","l":l,"v":v}));
                    }
                    "C13" if *node => self.views(h, l),
                    "C14" if *node => {
                        let ks = self.kset(l, i);
                        let k2 = self.kset(l, i + 1);
                        for to in [1, 2, 3] {
                            self.s.exec(&json!({"a":"ptr","f":h,"f2":1,"h":to,"l":l,"v":v,"K":ks,"K2":k2}));
                        }
                        self.s.exec(&json!({"a":"csub","h":h,"d":4,"l":l}));
                        self.s.exec(&json!({"a":"ptr","f":h,"f2":4,"h":4,"l":l,"v":v,"K":ks,"K2":k2}));
                        self.s.exec(&json!({"a":"ptr","f":4,"f2":h,"h":1,"l":l,"v":v,"K":ks,"K2":k2}));
                    }
                    "C15" => {
                        if *node {
                            for j in 0..self.kinds.len().min(3) {
                                let ks = self.kset(l, j);
                                let k = self.kset(l, j + 1)[0].clone();
                                self.s.exec(&json!({"a":"ast","h":h,"l":l,"v":v,"K":ks,"k":k,"at":j}));
                            }
                        }
                        self.all_navs(h, l, v);
                    }
                    "C16" => {
                        self.s.exec(&json!({"a":"fmt","h":h,"l":i % 3}));
                        self.s.exec(&json!({"a":"ser","h":h,"l":1 + i % 2,"at":i % 11}));
                        self.s.exec(&json!({"a":"snap","h":h,"d":2,"l":l}));
                        self.s.exec(&json!({"a":"gfmt","g":2}));
                    }
                    _ => {}
                }
            }
        }
    }

    /// Walks that skip after each enter event in turn, and after all of them.
    fn skips(&mut self, h: usize, tok: usize, l: usize, v: usize, size: usize) {
        for which in 0..=size {
            self.s.exec(&json!({"a":"walk","i":1,"h":h,"tok":tok,"l":l}));
            let mut seen = 0;
            for _ in 0..2 * size + 2 {
                self.s.exec(&json!({"a":"walkn","i":1,"d":0,"v":v}));
                if self.s.it[1].as_ref().is_some_and(|s| s.entered) {
                    if seen == which || which == size {
                        self.s.exec(&json!({"a":"walks","i":1}));
                    }
                    seen += 1;
                } else if self.s.it[1].as_ref().is_some_and(|s| s.done) {
                    break;
                }
            }
            if seen <= which {
                break;
            }
        }
    }

    /// Child iterators, cloned and filtered at every place.
    fn iters(&mut self, h: usize, l: usize, v: usize, i: usize) {
        for op in ["children", "children_with_tokens"] {
            let n = self.nkids(h);
            for at in 0..=n + 1 {
                self.s.exec(&json!({"a":"it","i":1,"h":h,"op":op,"K":[],"l":l,"v":v}));
                for j in 0..at {
                    self.s.exec(&json!({"a":"itn","i":1,"d":if (j + i) % 2 == 0 { 6 } else { 0 },"v":v}));
                }
                self.s.exec(&json!({"a":"itc","i":1,"j":2}));
                // mostly the kind of the element just yielded, or of the one after it
                let k = match &self.s.h[h] {
                    Some(NodeOrToken::Node(n)) => {
                        n.green().children().nth((at + i % 2).saturating_sub(1)).map(|c| c.kind().0)
                    }
                    _ => None,
                };
                let k = k.map_or_else(|| self.kset(l, at), |k| json!([tr(l as u8, k)]));
                self.s.exec(&json!({"a":"itk","i":1,"K":k}));
                for it in [1, 2] {
                    for j in 0..n + 2 {
                        self.s.exec(&json!({"a":"itn","i":it,"d":if (j + i) % 3 == 0 { 7 } else { 0 },"v":v}));
                    }
                }
            }
        }
    }

    fn views(&mut self, h: usize, l: usize) {
        let Some(NodeOrToken::Node(n)) = self.s.h[h].clone() else { return };
        let t = guard(|| Gv::read(NodeOrToken::Node(&n.green())).text()).unwrap_or_default();
        drop(n);
        let mut b: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
        b.push(t.len());
        for i in 0..b.len() {
            for j in i..b.len() {
                let piece = &t[b[i]..b[j]];
                let at: Vec<Value> = (i..=j).map(|k| json!([b[k] - b[i]])).chain([json!([t.len() + 1])]).collect();
                let cs: Vec<Value> = ['a', 'é', 'q'].iter().map(|&c| json!([c as u32])).collect();
                let mut cmp = vec![json!([cps(piece)]), json!([cps(&t)]), json!([[]])];
                cmp.push(json!([cps(&format!("{piece}a"))]));
                cmp.push(json!([cps(&piece.replace('a', "b"))]));
                if let Some((k, _)) = piece.char_indices().last() {
                    cmp.push(json!([cps(&piece[..k])]));
                }
                let qs = json!([{"f":if i % 2 == 0 { "range" } else { "trange" },"s":b[i],"e":b[j]}]);
                self.s.exec(&json!({"a":"text","h":h,"l":l,"qs":qs,"stop":i + 1,"find":cs,"has":cs,"at":at,"cmp":cmp}));
                // against the view of the same length starting at each place of the whole tree
                let (s, e) = self.text_len(1);
                let len = (b[j] - b[i]) as u32;
                if e - s >= len {
                    for o in 0..=(e - s - len) {
                        let q2 = json!([{"f":"range","s":o,"e":o + len}]);
                        let whole = self.whole_text();
                        if whole.is_char_boundary(o as usize) && whole.is_char_boundary((o + len) as usize) {
                            self.s.exec(&json!({"a":"textcmp","h":h,"qs":qs,"h2":1,"qs2":q2}));
                        }
                    }
                }
            }
        }
    }
    fn whole_text(&self) -> String {
        match &self.s.h[1] {
            Some(NodeOrToken::Node(n)) => guard(|| Gv::read(NodeOrToken::Node(&n.green())).text()).unwrap_or_default(),
            _ => String::new(),
        }
    }

    /// Every single green edit of every node, and every replacement in the tree.
    fn tree_c03(&mut self, gv: &Gv, ps: &[(Vec<usize>, bool)], l: usize, idx: usize) {
        let tok = Gv::Tok(7, "yz".into());
        let node = Gv::Node(8, vec![Gv::Tok(7, "w".into())]);
        self.s.exec(&json!({"a":"green","d":2,"g":tok.json(),"m":0}));
        self.s.exec(&json!({"a":"green","d":3,"g":node.json(),"m":0}));
        for (i, (p, is_node)) in ps.iter().enumerate() {
            self.s.exec(&json!({"a":"goto","h":1,"p":p,"m":(i + idx) % 3,"d":3,"l":l,"v":0}));
            if self.s.h[3].is_none() {
                return;
            }
            let k = match gv_at(gv, p) {
                Some(g) => g.kind(),
                None => return,
            };
            let r = if *is_node { Gv::Node(k, vec![tok.clone(), tok.clone()]) } else { Gv::Tok(k, "é".into()) };
            self.s.exec(&json!({"a":"green","d":4,"g":r.json(),"m":0}));
            if *is_node || !p.is_empty() {
                self.s.exec(&json!({"a":"repl","h":3,"g":4,"d":5,"l":l}));
            }
            if *is_node {
                self.s.exec(&json!({"a":"snap","h":3,"d":6,"l":l}));
                let n = self.nkids(3);
                for lo in 0..=n {
                    for x in [2, 3] {
                        self.s.exec(&json!({"a":"gedit","g":6,"op":"insert_child","lo":lo,"hi":lo,"xs":[x],"d":7}));
                        if lo < n {
                            self.s.exec(&json!({"a":"gedit","g":6,"op":"replace_child","lo":lo,"hi":lo + 1,"xs":[x],"d":7}));
                        }
                    }
                    if lo < n {
                        self.s.exec(&json!({"a":"gedit","g":6,"op":"remove_child","lo":lo,"hi":lo + 1,"xs":[],"d":7}));
                    }
                    for hi in lo..=n {
                        for xs in [vec![], vec![2], vec![3, 2]] {
                            let op = if lo == 0 && hi == n {
                                "splice_full"
                            } else if lo == 0 {
                                "splice_to"
                            } else if hi == n {
                                "splice_from"
                            } else {
                                "splice"
                            };
                            let other = if lo > 0 { "splice_excl" } else { "splice" };
                            for op in [op, other] {
                                self.s.exec(&json!({"a":"gedit","g":6,"op":op,"lo":lo,"hi":hi,"xs":xs,"d":7}));
                            }
                        }
                    }
                }
                self.s.exec(&json!({"a":"greens"}));
            }
        }
        self.s.exec(&json!({"a":"dump","h":1,"m":idx % 3,"l":l}));
    }
}

fn gv_at<'a>(g: &'a Gv, p: &[usize]) -> Option<&'a Gv> {
    match (g, p) {
        (g, []) => Some(g),
        (Gv::Node(_, c), [i, rest @ ..]) => gv_at(c.get(*i)?, rest),
        _ => None,
    }
}

fn rekind(g: &mut Gv, n: &mut usize) {
    const NODE: [u16; 4] = [1, 5, 0, 256];
    const TOK: [u16; 3] = [2, 5, 65535];
    *n = n.wrapping_mul(7).wrapping_add(3);
    match g {
        Gv::Tok(k, _) => *k = TOK[(*n / 8) % 3],
        Gv::Node(k, c) => {
            *k = NODE[(*n / 8) % 4];
            c.iter_mut().for_each(|c| rekind(c, n));
        }
    }
}
