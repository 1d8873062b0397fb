//! Proofs of one Merk tree: an adversary that knows the whole tree builds
//! every proof it can, the verifier has to see through all but the honest.
use std::fmt::Write;

use grovedb_merk::proofs::{

    query::{QueryItem, QueryProofVerify},
    Node, Op, Query,
};
use grovedb_query::proofs::{encode_into, TreeFeatureType};
use kit::{ensure, Ctx, Res, Spec};

use crate::query::{items, selects, shows};

pub fn specs() -> Vec<Spec> {
    vec![Spec { id: "C19", level: "model_checking", run: c19 }]
}

type H = [u8; 32];

fn b3(parts: &[&[u8]]) -> H {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}
fn value_hash(v: &[u8]) -> H {
    assert!(v.len() < 128);
    b3(&[&[v.len() as u8], v])
}
fn combine(a: &H, b: &H) -> H {
    b3(&[a, b])
}
fn kv_hash(k: &[u8], vh: &H) -> H {
    b3(&[&[k.len() as u8], k, vh])
}

/// What is stored at a key.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sort {
    Item,
    Tree,
    Ref,
}

#[derive(Clone)]
struct T {
    key: Vec<u8>,
    sort: Sort,
    /// stored bytes
    val: Vec<u8>,
    /// root hash of the subtree, or the bytes of the reference's target
    child: H,
    target: Vec<u8>,
    vh: H,
    l: Option<Box<T>>,
    r: Option<Box<T>>,
    hash: H,
    count: Option<u64>,
}

fn item(s: &[u8]) -> Vec<u8> {
    let mut v = vec![0, s.len() as u8];
    v.extend_from_slice(s);
    v.push(0);
    v
}
fn tree(root: &[u8]) -> Vec<u8> {
    let mut v = vec![2, 1, root.len() as u8];
    v.extend_from_slice(root);
    v.push(0);
    v
}
/// absolute path reference to /t/x
fn reference() -> Vec<u8> {
    vec![1, 0, 2, 1, b't', 1, b'x', 0, 0]
}

fn build(keys: &[u8], shape: &Shape, sorts: &[Sort], counted: bool) -> T {
    let (l, r) = (&shape.0, &shape.1);
    let nl = l.as_ref().map_or(0, |s| s.size());
    let sub = |s: &Option<Box<Shape>>, a: usize, b: usize| {
        s.as_ref().map(|s| Box::new(build(&keys[a..b], s, &sorts[a..b], counted)))
    };
    let l = sub(l, 0, nl);
    let r = sub(r, nl + 1, keys.len());
    let (key, sort) = (vec![keys[nl]], sorts[nl]);
    let child = b3(&[b"child", &key]);
    let target = item(&[b"target", &key[..]].concat());
    let (val, vh) = match sort {
        Sort::Item => {
            let v = item(&[b"v", &key[..]].concat());
            let h = value_hash(&v);
            (v, h)
        }
        Sort::Tree => {
            let v = tree(b"q");
            let h = combine(&value_hash(&v), &child);
            (v, h)
        }
        Sort::Ref => {
            let v = reference();
            let h = combine(&value_hash(&v), &value_hash(&target));
            (v, h)
        }
    };
    let count = counted.then_some(keys.len() as u64);
    let z = [0u8; 32];
    let hash = top(
        &kv_hash(&key, &vh),
        l.as_ref().map_or(&z, |t| &t.hash),
        r.as_ref().map_or(&z, |t| &t.hash),
        count,
    );
    T { key, sort, val, child, target, vh, l, r, hash, count }
}
fn top(kv: &H, l: &H, r: &H, count: Option<u64>) -> H {
    match count {
        None => b3(&[kv, l, r]),
        Some(c) => b3(&[kv, l, r, &c.to_be_bytes()]),
    }
}

#[derive(Clone)]
struct Shape(Option<Box<Shape>>, Option<Box<Shape>>);
impl Shape {
    fn size(&self) -> usize {
        1 + self.0.as_ref().map_or(0, |s| s.size()) + self.1.as_ref().map_or(0, |s| s.size())
    }
    fn height(&self) -> usize {
        1 + self
            .0
            .as_ref()
            .map_or(0, |s| s.height())
            .max(self.1.as_ref().map_or(0, |s| s.height()))
    }
}
fn shapes(n: usize) -> Vec<Option<Box<Shape>>> {
    if n == 0 {
        return vec![None];
    }
    let mut out = vec![];
    for nl in 0..n {
        for l in shapes(nl) {
            for r in shapes(n - 1 - nl) {
                let (a, b) = (
                    l.as_ref().map_or(0, |s| s.height()),
                    r.as_ref().map_or(0, |s| s.height()),
                );
                if a.abs_diff(b) <= 1 {
                    out.push(Some(Box::new(Shape(l.clone(), r.clone()))));
                }
            }
        }
    }
    out
}

impl T {
    fn feature(&self) -> TreeFeatureType {
        match self.count {
            None => TreeFeatureType::BasicMerkNode,
            Some(c) => TreeFeatureType::ProvableCountedMerkNode(c),
        }
    }
    /// The node that shows key and value.
    fn full(&self) -> Node {
        let (k, v) = (self.key.clone(), self.val.clone());
        match (self.sort, self.count) {
            (Sort::Item, None) => Node::KV(k, v),
            (Sort::Item, Some(c)) => Node::KVCount(k, v, c),
            (Sort::Tree, None) => Node::KVValueHash(k, v, self.vh),
            (Sort::Tree, Some(_)) => Node::KVValueHashFeatureType(k, v, self.vh, self.feature()),
            (Sort::Ref, None) => Node::KVRefValueHash(k, self.target.clone(), value_hash(&self.val)),
            (Sort::Ref, Some(c)) => {
                Node::KVRefValueHashCount(k, self.target.clone(), value_hash(&self.val), c)
            }
        }
    }
    fn digest(&self) -> Node {
        match self.count {
            None => Node::KVDigest(self.key.clone(), self.vh),
            Some(c) => Node::KVDigestCount(self.key.clone(), self.vh, c),
        }
    }
    fn kvhash(&self) -> Node {
        let h = kv_hash(&self.key, &self.vh);
        match self.count {
            None => Node::KVHash(h),
            Some(c) => Node::KVHashCount(h, c),
        }
    }
    /// Nodes that claim something else.
    fn forged(&self, others: &[u8]) -> Vec<Node> {
        let k = &self.key;
        let ft = self.feature();
        let bad_item = item(b"forged");
        let bad_tree = tree(b"z");
        let empty = vec![2, 0, 0];
        let rf = reference();
        let mut out = vec![];
        for v in [&bad_item, &bad_tree, &empty, &rf, &self.val, &self.target] {
            out.push(Node::KV(k.clone(), v.clone()));
            out.push(Node::KVValueHash(k.clone(), v.clone(), self.vh));
            out.push(Node::KVValueHashFeatureType(k.clone(), v.clone(), self.vh, ft));
            for c in [self.child, [0; 32], value_hash(&self.target)] {
                out.push(Node::KVValueHashFeatureTypeWithChildHash(k.clone(), v.clone(), self.vh, ft, c));
            }
            for h in [self.vh, value_hash(&self.val), self.child] {
                out.push(Node::KVRefValueHash(k.clone(), v.clone(), h));
                out.push(Node::KVRefValueHashCount(k.clone(), v.clone(), h, self.count.unwrap_or(1)));
            }
            out.push(Node::KVCount(k.clone(), v.clone(), self.count.unwrap_or(1)));
        }
        for d in [1, u64::MAX] {
            let c = self.count.unwrap_or(0).wrapping_add(d);
            out.push(Node::KVCount(k.clone(), self.val.clone(), c));
            out.push(Node::KVDigestCount(k.clone(), self.vh, c));
            out.push(Node::KVHashCount(kv_hash(k, &self.vh), c));
            out.push(Node::KVValueHashFeatureType(
                k.clone(),
                self.val.clone(),
                self.vh,
                TreeFeatureType::ProvableCountedMerkNode(c),
            ));
        }
        for o in others {
            let o = vec![*o];
            if &o != k {
                out.push(Node::KV(o.clone(), self.val.clone()));
                out.push(Node::KVDigest(o.clone(), self.vh));
                out.push(Node::KVValueHash(o.clone(), tree(b"q"), self.vh));
                out.push(Node::KVRefValueHash(o, self.target.clone(), value_hash(&self.val)));
            }
        }
        // the hash of the whole subtree in place of its top
        out.push(Node::Hash(self.hash));
        out.push(Node::KVHash(self.hash));
        out.push(Node::KVHash(self.vh));
        out
    }
    fn inorder<'a>(&'a self, out: &mut Vec<&'a T>) {
        if let Some(l) = &self.l {
            l.inorder(out);
        }
        out.push(self);
        if let Some(r) = &self.r {
            r.inorder(out);
        }
    }
}

/// A proof as a tree of nodes.
#[derive(Clone)]
struct P {
    node: Node,
    l: Option<Box<P>>,
    r: Option<Box<P>>,
}
impl P {
    fn leaf(node: Node) -> P {
        P { node, l: None, r: None }
    }
    fn nodes(&self) -> usize {
        1 + self.l.as_ref().map_or(0, |p| p.nodes()) + self.r.as_ref().map_or(0, |p| p.nodes())
    }
}

/// Every truthful abridgement.
fn abridged(t: &T) -> Vec<P> {
    let mut out = vec![P::leaf(Node::Hash(t.hash))];
    let subs = |c: &Option<Box<T>>| -> Vec<Option<Box<P>>> {
        match c {
            None => vec![None],
            Some(c) => abridged(c).into_iter().map(|p| Some(Box::new(p))).collect(),
        }
    };
    let (ls, rs) = (subs(&t.l), subs(&t.r));
    for node in [t.full(), t.digest(), t.kvhash()] {
        for l in &ls {
            for r in &rs {
                out.push(P { node: node.clone(), l: l.clone(), r: r.clone() });
            }
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
enum Part {
    L,
    N,
    R,
}
use Part::*;
const ORDERS: [[Part; 3]; 6] = [
    [L, N, R],
    [R, N, L],
    [N, L, R],
    [N, R, L],
    [L, R, N],
    [R, L, N],
];

/// Emits a proof tree with an order per node, given as digits of `code`.
fn emit(p: &P, code: &mut usize, down: bool, last: &mut Option<Vec<u8>>, out: &mut Vec<Op>) {
    let order = match (&p.l, &p.r) {
        (None, None) => [N, L, R],
        (Some(_), Some(_)) => {
            let o = ORDERS[*code % 6];
            *code /= 6;
            o
        }
        (Some(_), None) => {
            let o = [[L, N, R], [N, L, R]][*code % 2];
            *code /= 2;
            o
        }
        (None, Some(_)) => {
            let o = [[N, R, L], [R, N, L]][*code % 2];
            *code /= 2;
            o
        }
    };
    let mut seen_node = false;
    let mut pending: Vec<Part> = vec![];
    for part in order {
        match part {
            N => {
                let key = key_of(&p.node);
                let inverted = match (&key, &*last) {
                    (Some(k), Some(l)) => k < l,
                    _ => down,
                };
                if key.is_some() {
                    *last = key;
                }
                out.push(if inverted { Op::PushInverted(p.node.clone()) } else { Op::Push(p.node.clone()) });
                seen_node = true;
                while let Some(x) = pending.pop() {
                    out.push(if x == L { Op::Parent } else { Op::ParentInverted });
                }
            }
            side => {
                let c = if side == L { &p.l } else { &p.r };
                if let Some(c) = c {
                    emit(c, code, down, last, out);
                    if seen_node {
                        out.push(if side == L { Op::ChildInverted } else { Op::Child });
                    } else {
                        pending.push(side);
                    }
                }
            }
        }
    }
}
fn orders(p: &P) -> usize {
    let own = match (&p.l, &p.r) {
        (None, None) => 1,
        (Some(_), Some(_)) => 6,
        _ => 2,
    };
    own * p.l.as_ref().map_or(1, |p| orders(p)) * p.r.as_ref().map_or(1, |p| orders(p))
}
/// The emission that the prover uses.
fn honest(p: &P, down: bool, out: &mut Vec<Op>) {
    let (a, b) = if down { (&p.r, &p.l) } else { (&p.l, &p.r) };
    if let Some(c) = a {
        honest(c, down, out);
    }
    out.push(if down { Op::PushInverted(p.node.clone()) } else { Op::Push(p.node.clone()) });
    if a.is_some() {
        out.push(if down { Op::ParentInverted } else { Op::Parent });
    }
    if let Some(c) = b {
        honest(c, down, out);
        out.push(if down { Op::ChildInverted } else { Op::Child });
    }
}

fn key_of(n: &Node) -> Option<Vec<u8>> {
    match n {
        Node::KV(k, ..)
        | Node::KVValueHash(k, ..)
        | Node::KVRefValueHash(k, ..)
        | Node::KVValueHashFeatureType(k, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(k, ..)
        | Node::KVDigest(k, ..)
        | Node::KVDigestCount(k, ..)
        | Node::KVCount(k, ..)
        | Node::KVRefValueHashCount(k, ..) => Some(k.clone()),
        Node::Hash(_) | Node::KVHash(_) | Node::KVHashCount(..) => None,
    }
}

struct Ask {
    query: Query,
    items: Vec<QueryItem>,
    down: bool,
    limit: Option<u16>,
}

fn asks(sets: &[Vec<QueryItem>], limits: &[Option<u16>]) -> Vec<Ask> {
    let mut out = vec![];
    for s in sets {
        for down in [false, true] {
            for l in limits {
                let mut query = Query::new();
                query.left_to_right = !down;
                for i in s {
                    query.insert_item(i.clone());
                }
                out.push(Ask { query, items: s.clone(), down, limit: *l });
            }
        }
    }
    out
}

impl Ask {
    fn show(&self) -> String {
        format!(
            "{} {} limit {:?}",
            shows(&self.items),
            if self.down { "descending" } else { "ascending" },
            self.limit
        )
    }
    fn truth<'a>(&self, all: &[&'a T]) -> Vec<&'a T> {
        let mut v: Vec<&T> = all
            .iter()
            .filter(|t| self.items.iter().any(|i| selects(i, &t.key)))
            .cloned()
            .collect();
        if self.down {
            v.reverse();
        }
        if let Some(l) = self.limit {
            v.truncate(l as usize);
        }
        v
    }
}

fn show_ops(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops {
        match o {
            Op::Push(n) => write!(s, "push {} ", show_node(n)),
            Op::PushInverted(n) => write!(s, "push~ {} ", show_node(n)),
            Op::Parent => write!(s, "parent "),
            Op::Child => write!(s, "child "),
            Op::ParentInverted => write!(s, "parent~ "),
            Op::ChildInverted => write!(s, "child~ "),
        }
        .unwrap();
    }
    s
}
fn show_node(n: &Node) -> String {
    let name = format!("{n:?}");
    let name = name.split('(').next().unwrap();
    match key_of(n) {
        Some(k) => format!("{name}[{}]", String::from_utf8_lossy(&k)),
        None => name.into(),
    }
}

/// An accepted proof that leads to the root hash shows the truth. Returns
/// whether it was accepted.
fn attack(root: &H, all: &[&T], ask: &Ask, ops: &[Op]) -> Result<bool, String> {
    let mut bytes = vec![];
    encode_into(ops.iter(), &mut bytes);
    let r = ask.query.execute_proof(&bytes, ask.limit, !ask.down, 1).unwrap();
    let Ok((h, res)) = r else { return Ok(false) };
    if &h != root {
        return Ok(false);
    }
    let want = ask.truth(all);
    let got: Vec<String> = res
        .result_set
        .iter()
        .map(|x| String::from_utf8_lossy(&x.key).into_owned())
        .collect();
    ensure!(
        res.result_set.len() == want.len() && res.result_set.iter().zip(&want).all(|(g, w)| g.key == w.key),
        "accepted with results {got:?}, stored are {:?}",
        want.iter().map(|t| String::from_utf8_lossy(&t.key).into_owned()).collect::<Vec<_>>()
    );
    for (g, t) in res.result_set.iter().zip(&want) {
        let Some(v) = &g.value else { return Err(format!("no value for {got:?}")) };
        // the hash decides about values that need what is below them
        let open = v[0] == 2 || v[0] == 1;
        if open && !g.child_hash_verified {
            ensure!(g.proof == t.vh, "accepted with another value hash");
        } else if open {
            ensure!(v == &t.val && g.proof == t.vh, "accepted with another verified value");
        } else {
            let right = if t.sort == Sort::Ref { &t.target } else { &t.val };
            ensure!(v == right, "accepted with the value {}", kit::hex(v));
        }
    }
    Ok(true)
}

fn replaced(p: &P, at: usize, f: &mut dyn FnMut(&P) -> Vec<P>) -> Vec<P> {
    if at == 0 {
        return f(p);
    }
    let nl = p.l.as_ref().map_or(0, |p| p.nodes());
    if at <= nl {
        replaced(p.l.as_ref().unwrap(), at - 1, f)
            .into_iter()
            .map(|l| P { node: p.node.clone(), l: Some(Box::new(l)), r: p.r.clone() })
            .collect()
    } else {
        replaced(p.r.as_ref().unwrap(), at - 1 - nl, f)
            .into_iter()
            .map(|r| P { node: p.node.clone(), l: p.l.clone(), r: Some(Box::new(r)) })
            .collect()
    }
}

fn sorts(n: usize) -> Vec<Vec<Sort>> {
    let base = [Sort::Item, Sort::Tree, Sort::Ref];
    (0..3).map(|s| (0..n).map(|i| base[(i + s) % 3]).collect()).collect()
}

fn c19(c: &Ctx) {
    let letters: Vec<Vec<u8>> = (b'a'..=b'i').map(|x| vec![x]).collect();
    let limits = [None, Some(1), Some(2), Some(0)];
    // how the tree is abridged and in which order it is sent
    let max = c.pick(4, 5);
    for n in 1..=max {
        let keys: Vec<u8> = (0..n).map(|i| b'b' + 2 * i as u8).collect();
        let bounds: Vec<Vec<u8>> = match n {
            1..=3 => letters[..2 * n + 1].to_vec(),
            4 => ["b", "c", "f", "h", "i"].iter().map(|s| s.as_bytes().to_vec()).collect(),
            _ => ["b", "e", "h"].iter().map(|s| s.as_bytes().to_vec()).collect(),
        };
        let single = items(&bounds, true);
        let mut sets: Vec<Vec<QueryItem>> = single.iter().map(|i| vec![i.clone()]).collect();
        if n <= 3 {
            let small = items(&letters[1..c.pick(5, 6)], true);
            for (i, a) in small.iter().enumerate() {
                for b in &small[i + 1..] {
                    let mut q = Query::new();
                    q.insert_item(a.clone());
                    q.insert_item(b.clone());
                    if q.items.len() == 2 {
                        sets.push(q.items);
                    }
                }
            }
        }
        let questions = asks(&sets, &limits[..c.pick(3, 4)]);
        c.bound(format!("{n} keys: {} questions, every abridgement in every order", questions.len()));
        for shape in shapes(n).into_iter().flatten() {
            for counted in [false, true] {
                if counted && n > c.pick(3, 4) {
                    continue;
                }
                let t = build(&keys, &shape, &sorts(n)[n % 3], counted);
                let mut all = vec![];
                t.inorder(&mut all);
                let ps = abridged(&t);
                let jobs: Vec<(usize, usize)> = ps
                    .iter()
                    .enumerate()
                    .flat_map(|(i, p)| (0..orders(p)).map(move |o| (i, o)))
                    .collect();
                for j in &jobs {
                    c.state(format!("{n}{counted}{}{j:?}", kit::hex(&t.hash)).as_bytes());
                }
                let chunks: Vec<_> = jobs.chunks(64).collect();
                c.par(&chunks, |chunk| {
                    for (i, code) in chunk.iter() {
                        for down in [false, true] {
                            let mut ops = vec![];
                            emit(&ps[*i], &mut code.clone(), down, &mut None, &mut ops);
                            run(c, &t, &all, &questions, down, &ops);
                        }
                    }
                });
            }
        }
    }
    // what the nodes claim
    for n in 1..=c.pick(3, 4) {
        let keys: Vec<u8> = (0..n).map(|i| b'b' + 2 * i as u8).collect();
        let single = items(&letters[..2 * n + 1], true);
        let sets: Vec<Vec<QueryItem>> = single
            .iter()
            .filter(|i| c.thorough || n < 3 || matches!(i, QueryItem::Key(_) | QueryItem::RangeFull(_) | QueryItem::RangeInclusive(_)))
            .map(|i| vec![i.clone()])
            .collect();
        let questions = asks(&sets, &limits[..3]);
        c.bound(format!("{n} keys: {} questions, every single forged node in every abridgement", questions.len()));
        for shape in shapes(n).into_iter().flatten() {
            for counted in [false, true] {
                for s in sorts(n) {
                    let t = build(&keys, &shape, &s, counted);
                    let mut all = vec![];
                    t.inorder(&mut all);
                    let others: Vec<u8> = (b'a'..b'b' + 2 * n as u8).collect();
                    let ps = abridged(&t);
                    c.par(&ps, |p| {
                        for at in 0..p.nodes() {
                            let forged = replaced(p, at, &mut |x| {
                                let mut out = vec![];
                                let fakes = match all.iter().find(|t| key_of(&x.node).as_ref() == Some(&t.key)) {
                                    Some(t) => t.forged(&others),
                                    None => {
                                        let fake = T { key: b"c".to_vec(), ..t.clone() };
                                        fake.forged(&others)
                                    }
                                };
                                for node in fakes {
                                    out.push(P { node, l: x.l.clone(), r: x.r.clone() });
                                }
                                // something attached where nothing is
                                for o in &others {
                                    for node in [Node::KV(vec![*o], item(b"forged")), Node::KVDigest(vec![*o], [7; 32])] {
                                        let extra = Some(Box::new(P::leaf(node)));
                                        if x.l.is_none() {
                                            out.push(P { node: x.node.clone(), l: extra.clone(), r: x.r.clone() });
                                        }
                                        if x.r.is_none() {
                                            out.push(P { node: x.node.clone(), l: x.l.clone(), r: extra.clone() });
                                        }
                                    }
                                }
                                out
                            });
                            for f in forged {
                                for down in [false, true] {
                                    let mut ops = vec![];
                                    honest(&f, down, &mut ops);
                                    run(c, &t, &all, &questions, down, &ops);
                                }
                            }
                        }
                    });
                }
            }
        }
    }
}

fn run(c: &Ctx, t: &T, all: &[&T], questions: &[Ask], down: bool, ops: &[Op]) {
    for q in questions.iter().filter(|q| q.down == down) {
        c.step();
        c.case(
            || {
                let keys: String = all.iter().map(|t| format!("{}:{:?} ", String::from_utf8_lossy(&t.key), t.sort)).collect();
                format!("tree {keys}{}; {}; proof {}", if t.count.is_some() { "counted" } else { "" }, q.show(), show_ops(ops))
            },
            || -> Res { attack(&t.hash, all, q, ops).map(|_| ()) },
        );
    }
}
