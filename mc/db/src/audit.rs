//! An auditor of committed database contents that shares no code with GroveDB
//! except the element codec: it walks the raw key-value entries, recomputes
//! every hash, height, aggregate and link, and accounts for every entry.
//!
//! What it accepts is exactly what a second implementation of the on-disk
//! format would accept, so "the audit passes and the root hash is the one the
//! audit recomputed" means that the stored structure is authenticated by the
//! root hash.
use std::collections::BTreeMap;

use grovedb::Element;
use grovedb_version::version::GroveVersion;
use rocksdb::Snapshot;

pub type Path = Vec<Vec<u8>>;
pub type Hash = [u8; 32];
pub const NULL: Hash = [0; 32];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Normal,
    Sum,
    BigSum,
    Count,
    CountSum,
    ProvableCount,
    ProvableCountSum,
}

impl Kind {
    pub fn of(e: &Element) -> Option<Kind> {
        Some(match e {
            Element::Tree(..) => Kind::Normal,
            Element::SumTree(..) => Kind::Sum,
            Element::BigSumTree(..) => Kind::BigSum,
            Element::CountTree(..) => Kind::Count,
            Element::CountSumTree(..) => Kind::CountSum,
            Element::ProvableCountTree(..) => Kind::ProvableCount,
            Element::ProvableCountSumTree(..) => Kind::ProvableCountSum,
            _ => return None,
        })
    }
    pub fn tag(self) -> u8 {
        self as u8
    }
    pub fn sums(self) -> bool {
        matches!(
            self,
            Kind::Sum | Kind::BigSum | Kind::CountSum | Kind::ProvableCountSum
        )
    }
    pub fn counts(self) -> bool {
        matches!(
            self,
            Kind::Count | Kind::CountSum | Kind::ProvableCount | Kind::ProvableCountSum
        )
    }
    pub fn provable(self) -> bool {
        matches!(self, Kind::ProvableCount | Kind::ProvableCountSum)
    }
}

/// What an element adds to the tree that holds it.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Agg {
    pub count: u64,
    pub sum: i128,
}

/// The contribution of one element to a parent of the given kind, from the
/// documented meaning of the tree kinds.
pub fn contribution(parent: Kind, e: &Element) -> Agg {
    let count = match e {
        Element::CountTree(_, c, _)
        | Element::CountSumTree(_, c, ..)
        | Element::ProvableCountTree(_, c, _)
        | Element::ProvableCountSumTree(_, c, ..) => *c,
        _ => 1,
    };
    let sum = match e {
        Element::SumItem(s, _)
        | Element::ItemWithSumItem(_, s, _)
        | Element::SumTree(_, s, _)
        | Element::CountSumTree(_, _, s, _)
        | Element::ProvableCountSumTree(_, _, s, _) => *s as i128,
        Element::BigSumTree(_, s, _) if parent == Kind::BigSum => *s,
        _ => 0,
    };
    Agg {
        count: if parent.counts() { count } else { 0 },
        sum: if parent.sums() { sum } else { 0 },
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Link {
    pub key: Vec<u8>,
    pub hash: Hash,
    pub heights: (u8, u8),
    pub tag: u8,
    pub agg: Agg,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub left: Option<Link>,
    pub right: Option<Link>,
    pub tag: u8,
    pub own: Agg,
    pub kv_hash: Hash,
    pub value_hash: Hash,
    pub value: Vec<u8>,
    pub element: Element,
}

#[derive(Clone, Debug)]
pub struct Tree {
    pub kind: Kind,
    pub root_key: Option<Vec<u8>>,
    pub root_hash: Hash,
    pub agg: Agg,
    pub height: u8,
    pub nodes: BTreeMap<Vec<u8>, Node>,
}

#[derive(Clone, Debug, Default)]
pub struct Audit {
    pub trees: BTreeMap<Path, Tree>,
    /// every element by its full path
    pub elements: BTreeMap<Path, Element>,
    /// raw value bytes by full path
    pub raw: BTreeMap<Path, Vec<u8>>,
    pub value_hashes: BTreeMap<Path, Hash>,
    /// entries of trees that hold data instead of elements
    pub data: BTreeMap<Path, BTreeMap<Vec<u8>, Vec<u8>>>,
    pub root_hash: Hash,
    pub aux: BTreeMap<Vec<u8>, Vec<u8>>,
}

fn b3(parts: &[&[u8]]) -> Hash {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}

pub fn varint(mut n: u64) -> Vec<u8> {
    let mut out = vec![];
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
    out
}

pub fn value_hash(v: &[u8]) -> Hash {
    b3(&[&varint(v.len() as u64), v])
}
pub fn combine(a: &Hash, b: &Hash) -> Hash {
    b3(&[a, b])
}
pub fn kv_hash(key: &[u8], vh: &Hash) -> Hash {
    b3(&[&varint(key.len() as u64), key, vh])
}
pub fn node_hash(kv: &Hash, l: &Hash, r: &Hash, count: Option<u64>) -> Hash {
    match count {
        None => b3(&[kv, l, r]),
        Some(c) => b3(&[kv, l, r, &c.to_be_bytes()]),
    }
}

pub fn prefix(path: &[Vec<u8>]) -> Hash {
    if path.is_empty() {
        return [0; 32];
    }
    let mut body = vec![];
    let mut lens = vec![];
    for s in path.iter().rev() {
        body.extend_from_slice(s);
        lens.push(s.len() as u8);
    }
    body.extend((path.len() as u64).to_le_bytes());
    body.extend(lens);
    b3(&[&body])
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u8(&mut self) -> Result<u8, String> {
        let (a, b) = self.0.split_first().ok_or("node record too short")?;
        self.0 = b;
        Ok(*a)
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("node record too short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn hash(&mut self) -> Result<Hash, String> {
        Ok(self.take(32)?.try_into().unwrap())
    }
    fn uvar(&mut self) -> Result<u64, String> {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8()?;
            if s >= 64 {
                return Err("varint too long".into());
            }
            r |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 {
                return Ok(r);
            }
            s += 7;
        }
    }
    fn ivar(&mut self) -> Result<i64, String> {
        let u = self.uvar()?;
        Ok(((u >> 1) as i64) ^ -((u & 1) as i64))
    }
    fn i128(&mut self) -> Result<i128, String> {
        Ok(i128::from_be_bytes(self.take(16)?.try_into().unwrap()))
    }
    fn agg(&mut self) -> Result<(u8, Agg), String> {
        let t = self.u8()?;
        let mut a = Agg::default();
        match t {
            0 => {}
            1 => a.sum = self.ivar()? as i128,
            2 => a.sum = self.i128()?,
            3 | 5 => a.count = self.uvar()?,
            4 | 6 => {
                a.count = self.uvar()?;
                a.sum = self.ivar()? as i128;
            }
            _ => return Err(format!("aggregate tag {t}")),
        }
        Ok((t, a))
    }
    fn link(&mut self) -> Result<Option<Link>, String> {
        match self.u8()? {
            0 => Ok(None),
            1 => {
                let n = self.u8()? as usize;
                let key = self.take(n)?.to_vec();
                let hash = self.hash()?;
                let heights = (self.u8()?, self.u8()?);
                let (tag, agg) = self.agg()?;
                Ok(Some(Link {
                    key,
                    hash,
                    heights,
                    tag,
                    agg,
                }))
            }
            b => Err(format!("link marker {b}")),
        }
    }
}

pub fn decode_node(bytes: &[u8]) -> Result<Node, String> {
    let mut r = Rd(bytes);
    let left = r.link()?;
    let right = r.link()?;
    let (tag, own) = r.agg()?;
    let kv_hash = r.hash()?;
    let value_hash = r.hash()?;
    let value = r.0.to_vec();
    let element = Element::deserialize(&value, GroveVersion::latest())
        .map_err(|e| format!("element does not decode: {e:?}"))?;
    Ok(Node {
        left,
        right,
        tag,
        own,
        kv_hash,
        value_hash,
        value,
        element,
    })
}

fn show(path: &[Vec<u8>]) -> String {
    let mut s = String::new();
    for p in path {
        s.push('/');
        if p.iter().all(|b| b.is_ascii_graphic()) {
            s.push_str(&String::from_utf8_lossy(p));
        } else {
            s.push_str("0x");
            s.push_str(&kit::hex(p));
        }
    }
    if s.is_empty() {
        s.push('/');
    }
    s
}
pub fn show_path(path: &[Vec<u8>]) -> String {
    show(path)
}

struct Walk {
    hash: Hash,
    heights: (u8, u8),
    agg: Agg,
    tag: u8,
}

/// The second half of the value hash of elements that carry one: the state
/// root of a data tree, or the value hash of the element a reference was
/// resolved to. `None` if it is not to be checked.
pub type Half<'a> = &'a dyn Fn(&Path, &Element) -> Option<Hash>;

struct Auditor<'a> {
    /// data entries by subtree prefix
    by_prefix: BTreeMap<Hash, BTreeMap<Vec<u8>, Vec<u8>>>,
    half: Half<'a>,
    out: Audit,
}

impl Auditor<'_> {
    fn walk(
        &mut self,
        path: &Path,
        kind: Kind,
        nodes: &mut BTreeMap<Vec<u8>, Node>,
        entries: &mut BTreeMap<Vec<u8>, Vec<u8>>,
        key: &[u8],
        lo: Option<&[u8]>,
        hi: Option<&[u8]>,
    ) -> Result<Walk, String> {
        let at = || format!("{} key {}", show(path), kit::hex(key));
        if lo.is_some_and(|l| key <= l) || hi.is_some_and(|h| key >= h) {
            return Err(format!("{}: key out of search order", at()));
        }
        let bytes = entries
            .remove(key)
            .ok_or_else(|| format!("{}: linked node is not stored (or linked twice)", at()))?;
        let node = decode_node(&bytes).map_err(|e| format!("{}: {e}", at()))?;
        let mut sides = [None, None];
        for (i, l) in [&node.left, &node.right].into_iter().enumerate() {
            if let Some(l) = l {
                let (lo, hi) = if i == 0 {
                    (lo, Some(key))
                } else {
                    (Some(key), hi)
                };
                let w = self.walk(path, kind, nodes, entries, &l.key, lo, hi)?;
                if w.hash != l.hash {
                    return Err(format!(
                        "{}: link to {} records hash {} but the subtree hashes to {}",
                        at(),
                        kit::hex(&l.key),
                        kit::hex(&l.hash),
                        kit::hex(&w.hash)
                    ));
                }
                if w.heights != l.heights {
                    return Err(format!(
                        "{}: link to {} records child heights {:?} but they are {:?}",
                        at(),
                        kit::hex(&l.key),
                        l.heights,
                        w.heights
                    ));
                }
                if w.agg != l.agg || w.tag != l.tag {
                    return Err(format!(
                        "{}: link to {} records aggregate {:?} but the subtree's is {:?}",
                        at(),
                        kit::hex(&l.key),
                        (l.tag, l.agg),
                        (w.tag, w.agg)
                    ));
                }
                sides[i] = Some(w);
            }
        }
        let h = |w: &Option<Walk>| {
            w.as_ref()
                .map_or(0, |w| 1 + w.heights.0.max(w.heights.1))
        };
        let heights = (h(&sides[0]), h(&sides[1]));
        if heights.0.abs_diff(heights.1) > 1 {
            return Err(format!("{}: unbalanced, child heights {heights:?}", at()));
        }
        // own aggregate
        let mut full = path.clone();
        full.push(key.to_vec());
        if node.tag != kind.tag() {
            return Err(format!(
                "{}: node of type {} in a tree of kind {kind:?}",
                at(),
                node.tag
            ));
        }
        let own = contribution(kind, &node.element);
        if own != node.own {
            return Err(format!(
                "{}: node counts as {:?} but its element {:?} counts as {own:?}",
                at(),
                node.own,
                node.element
            ));
        }
        let mut agg = own;
        for s in sides.iter().flatten() {
            agg.count = agg
                .count
                .checked_add(s.agg.count)
                .ok_or_else(|| format!("{}: count overflows", at()))?;
            agg.sum += s.agg.sum;
        }
        if kind != Kind::BigSum && i64::try_from(agg.sum).is_err() {
            return Err(format!("{}: sum {} does not fit", at(), agg.sum));
        }
        // value hash
        let vh = value_hash(&node.value);
        let vh = match &node.element {
            Element::Reference(..) => match (self.half)(&full, &node.element) {
                Some(t) => combine(&vh, &t),
                None => node.value_hash,
            },
            e if Kind::of(e).is_some() => {
                let child = self.tree(&full, Kind::of(e).unwrap(), e)?;
                combine(&vh, &child)
            }
            e if e.is_any_tree() => {
                let p = prefix(&full);
                let data = self.by_prefix.remove(&p).unwrap_or_default();
                self.out.data.insert(full.clone(), data);
                match (self.half)(&full, e) {
                    Some(t) => combine(&vh, &t),
                    None => node.value_hash,
                }
            }
            _ => vh,
        };
        if vh != node.value_hash {
            return Err(format!(
                "{}: value hash {} stored, {} expected for {:?}",
                at(),
                kit::hex(&node.value_hash),
                kit::hex(&vh),
                node.element
            ));
        }
        let kvh = kv_hash(key, &vh);
        if kvh != node.kv_hash {
            return Err(format!("{}: kv hash is wrong", at()));
        }
        let z = |w: &Option<Walk>| w.as_ref().map_or(NULL, |w| w.hash);
        let hash = node_hash(
            &kvh,
            &z(&sides[0]),
            &z(&sides[1]),
            kind.provable().then_some(agg.count),
        );
        self.out.elements.insert(full.clone(), node.element.clone());
        self.out.raw.insert(full.clone(), node.value.clone());
        self.out.value_hashes.insert(full, vh);
        nodes.insert(key.to_vec(), node);
        Ok(Walk {
            hash,
            heights,
            agg,
            tag: kind.tag(),
        })
    }

    fn tree(&mut self, path: &Path, kind: Kind, e: &Element) -> Result<Hash, String> {
        let (root_key, claimed) = match e {
            Element::Tree(r, _) => (r, Agg::default()),
            Element::SumTree(r, s, _) => (
                r,
                Agg {
                    count: 0,
                    sum: *s as i128,
                },
            ),
            Element::BigSumTree(r, s, _) => (r, Agg { count: 0, sum: *s }),
            Element::CountTree(r, c, _) | Element::ProvableCountTree(r, c, _) => {
                (r, Agg { count: *c, sum: 0 })
            }
            Element::CountSumTree(r, c, s, _) | Element::ProvableCountSumTree(r, c, s, _) => (
                r,
                Agg {
                    count: *c,
                    sum: *s as i128,
                },
            ),
            _ => unreachable!(),
        };
        let mut entries = self.by_prefix.remove(&prefix(path)).unwrap_or_default();
        let mut nodes = BTreeMap::new();
        let w = match root_key {
            Some(k) => Some(self.walk(path, kind, &mut nodes, &mut entries, k, None, None)?),
            None => None,
        };
        if let Some((k, _)) = entries.iter().next() {
            return Err(format!(
                "{}: entry {} is stored but not reachable from the root of its tree",
                show(path),
                kit::hex(k)
            ));
        }
        let agg = w.as_ref().map_or(Agg::default(), |w| w.agg);
        if agg != claimed {
            return Err(format!(
                "{}: the element claims {claimed:?} but the tree adds up to {agg:?}",
                show(path)
            ));
        }
        let hash = w.as_ref().map_or(NULL, |w| w.hash);
        self.out.trees.insert(
            path.clone(),
            Tree {
                kind,
                root_key: root_key.clone(),
                root_hash: hash,
                agg,
                height: w.map_or(0, |w| 1 + w.heights.0.max(w.heights.1)),
                nodes,
            },
        );
        Ok(hash)
    }
}

pub fn audit(s: &Snapshot, half: Half) -> Result<Audit, String> {
    let empty = BTreeMap::new();
    let mut by_prefix: BTreeMap<Hash, BTreeMap<Vec<u8>, Vec<u8>>> = BTreeMap::new();
    for (k, v) in s.cf("default").unwrap_or(&empty) {
        if k.len() < 32 {
            return Err(format!("data key {} is too short", kit::hex(k)));
        }
        by_prefix
            .entry(k[..32].try_into().unwrap())
            .or_default()
            .insert(k[32..].to_vec(), v.clone());
    }
    let mut root_key = None;
    for (k, v) in s.cf("roots").unwrap_or(&empty) {
        if k.len() == 33 && k[..32] == [0; 32] && k[32..] == *b"r" {
            root_key = Some(v.clone());
        } else {
            return Err(format!("unexpected entry {} in 'roots'", kit::hex(k)));
        }
    }
    if let Some((k, _)) = s.cf("meta").unwrap_or(&empty).iter().next() {
        return Err(format!("unexpected entry {} in 'meta'", kit::hex(k)));
    }
    let mut a = Auditor {
        by_prefix,
        half,
        out: Audit::default(),
    };
    let root = Element::Tree(root_key, None);
    a.out.root_hash = a.tree(&vec![], Kind::Normal, &root)?;
    if let Some((p, m)) = a.by_prefix.iter().next() {
        return Err(format!(
            "{} entries under prefix {} belong to no tree",
            m.len(),
            kit::hex(p)
        ));
    }
    for (k, v) in s.cf("aux").unwrap_or(&empty) {
        let Some(k) = k.strip_prefix(&[0u8; 32][..]) else {
            return Err(format!("unexpected entry {} in 'aux'", kit::hex(k)));
        };
        a.out.aux.insert(k.to_vec(), v.clone());
    }
    Ok(a.out)
}
