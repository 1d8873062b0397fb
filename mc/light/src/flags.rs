//! C20: storage flags (who paid for the bytes of an element, and when).
use std::{borrow::Cow, collections::BTreeMap};

use grovedb_costs::storage_cost::{
    removal::StorageRemovedBytes,
    StorageCost,
};
use grovedb_epoch_based_storage_flags::{
    error::StorageFlagsError, MergingOwnersStrategy as Strategy, StorageFlags as Flags,
};
use intmap::IntMap;
use kit::{ensure, ensure_eq, Ctx, Res, Spec};
use StorageRemovedBytes::{BasicStorageRemoval, NoStorageRemoval, SectionedStorageRemoval};

pub fn specs() -> Vec<Spec> {
    vec![Spec { id: "C20", level: "model_checking", run: c20 }]
}

/// What flags say.
#[derive(Clone, Debug, PartialEq, Eq)]
struct M {
    base: u16,
    later: BTreeMap<u16, u32>,
    owner: Option<[u8; 32]>,
}

const FLOOR: u32 = 3;

impl M {
    fn flags(&self) -> Flags {
        match (self.later.is_empty(), self.owner) {
            (true, None) => Flags::SingleEpoch(self.base),
            (false, None) => Flags::MultiEpoch(self.base, self.later.clone()),
            (true, Some(o)) => Flags::SingleEpochOwned(self.base, o),
            (false, Some(o)) => Flags::MultiEpochOwned(self.base, self.later.clone(), o),
        }
    }

    fn of(f: &Flags) -> M {
        match f.clone() {
            Flags::SingleEpoch(base) => M { base, later: BTreeMap::new(), owner: None },
            Flags::MultiEpoch(base, later) => M { base, later, owner: None },
            Flags::SingleEpochOwned(base, o) => M { base, later: BTreeMap::new(), owner: Some(o) },
            Flags::MultiEpochOwned(base, later, o) => M { base, later, owner: Some(o) },
        }
    }

    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![match (self.later.is_empty(), self.owner) {
            (true, None) => 0,
            (false, None) => 1,
            (true, Some(_)) => 2,
            (false, Some(_)) => 3,
        }];
        if let Some(o) = self.owner {
            b.extend(o);
        }
        b.extend([(self.base >> 8) as u8, self.base as u8]);
        for (e, n) in &self.later {
            b.extend([(e >> 8) as u8, *e as u8]);
            let mut n = *n;
            while n >= 128 {
                b.push(n as u8 | 128);
                n >>= 7;
            }
            b.push(n as u8);
        }
        b
    }

    /// Taking `n` bytes away, the most recently paid first.
    fn split(&self, n: u32) -> Removed {
        let mut left = n;
        let mut out = BTreeMap::new();
        for (e, have) in self.later.iter().rev() {
            if left == 0 {
                break;
            }
            let take = left.min(have.saturating_sub(FLOOR));
            out.insert(*e, take);
            left -= take;
        }
        if left > 0 {
            out.insert(self.base, left);
        }
        out
    }

    fn owner_with(&self, o: &M, s: Strategy) -> Result<Option<[u8; 32]>, ()> {
        match (self.owner, o.owner) {
            (Some(a), Some(b)) if a != b => match s {
                Strategy::RaiseIssue => Err(()),
                Strategy::UseOurs => Ok(Some(a)),
                Strategy::UseTheirs => Ok(Some(b)),
            },
            (a, b) => Ok(a.or(b)),
        }
    }

    fn union(&self, o: &M) -> BTreeMap<u16, u32> {
        let mut m = self.later.clone();
        m.extend(o.later.iter().map(|(k, v)| (*k, *v)));
        m
    }

    fn grow(&self, o: &M, n: u32, s: Strategy) -> Result<M, ()> {
        if o.base < self.base {
            return Err(());
        }
        let mut m = M {
            base: self.base,
            later: self.union(o),
            owner: self.owner_with(o, s)?,
        };
        if o.base > self.base {
            let e = m.later.entry(o.base).or_default();
            *e = e.checked_add(n).ok_or(())?;
        }
        Ok(m)
    }

    fn shrink(&self, o: &M, r: &StorageRemovedBytes, s: Strategy) -> Result<M, ()> {
        if o.base < self.base {
            return Err(());
        }
        if o.base > self.base && self.later.is_empty() {
            return Ok(self.clone());
        }
        let mut m = M {
            base: self.base,
            later: self.union(o),
            owner: self.owner_with(o, s)?,
        };
        if o.base == self.base {
            return Ok(m);
        }
        if let SectionedStorageRemoval(sections) = r {
            if sections.len() != 1 {
                return Err(());
            }
            let mine = sections.get(&self.owner.unwrap_or_default()).ok_or(())?;
            for (e, n) in mine.iter() {
                if e == self.base {
                    continue;
                }
                let have = m.later.get(&e).copied().ok_or(())?;
                let rest = have.checked_sub(*n).ok_or(())?;
                if rest <= FLOOR {
                    m.later.remove(&e);
                } else {
                    m.later.insert(e, rest);
                }
            }
        }
        Ok(m)
    }
}

type Removed = BTreeMap<u16, u32>;

fn sections(owner: Option<[u8; 32]>, r: &Removed) -> StorageRemovedBytes {
    let mut m: IntMap<u16, u32> = IntMap::default();
    for (e, n) in r {
        m.insert(*e, *n);
    }
    SectionedStorageRemoval(BTreeMap::from([(owner.unwrap_or_default(), m)]))
}

fn owners() -> Vec<Option<[u8; 32]>> {
    let mut a = [0u8; 32];
    for (i, b) in a.iter_mut().enumerate() {
        *b = i as u8 + 1;
    }
    let mut b = a;
    b[31] ^= 0x80;
    vec![None, Some(a), Some(b)]
}

/// All flags over some epochs and byte counts.
fn all(bases: &[u16], epochs: &[u16], counts: &[u32], most: usize) -> Vec<M> {
    let mut out = vec![];
    for owner in owners() {
        for base in bases {
            kit::sequences(counts.len() + 1, epochs.len(), |s| {
                let later: BTreeMap<u16, u32> = s
                    .iter()
                    .enumerate()
                    .filter(|(i, c)| **c > 0 && epochs[*i] > *base)
                    .map(|(i, c)| (epochs[i], counts[*c - 1]))
                    .collect();
                let m = M { base: *base, later, owner };
                if m.later.len() <= most
                    && s.iter().enumerate().all(|(i, c)| *c == 0 || epochs[i] > *base)
                {
                    out.push(m);
                }
            });
        }
    }
    out
}

fn c20(ctx: &Ctx) {
    codec(ctx);
    decoder(ctx);
    splits(ctx);
    merges(ctx);
    histories(ctx);
}

fn codec(ctx: &Ctx) {
    let l = all(
        &[0, 1, 255, 256, 0x7fff],
        &[2, 0x0102, 0x8000, u16::MAX],
        ctx.pick(&[0, 127, 128, u32::MAX][..], &[0, 1, 127, 128, 16383, 16384, u32::MAX - 1, u32::MAX]),
        4,
    );
    let l = [l, many()].concat();
    ctx.bound(format!("codec: {} flags (4 kinds, 3 owners, up to 4 later epochs, and some of 21 to 300), each with all its truncations and extended by one or two bytes", l.len()));
    ctx.par(&l, |m| {
        ctx.step();
        ctx.state(&m.bytes());
        ctx.case(
            || format!("codec {m:?}"),
            || {
                let f = m.flags();
                let b = m.bytes();
                ensure_eq!(f.serialize(), b, "encoding");
                ensure_eq!(f.serialized_size() as usize, b.len(), "size");
                ensure_eq!(f.type_byte(), b[0], "type byte");
                ensure_eq!(f.base_epoch(), &m.base, "base epoch");
                ensure_eq!(f.owner_id(), m.owner.as_ref(), "owner");
                ensure_eq!(
                    f.epoch_index_map(),
                    (!m.later.is_empty()).then_some(&m.later),
                    "later epochs"
                );
                let ok = |r: Result<Option<Flags>, StorageFlagsError>, what: &str| -> Res {
                    ensure_eq!(r.map_err(|e| format!("{what}: {e}"))?, Some(f.clone()), "{what}");
                    Ok(())
                };
                ok(Flags::deserialize(&b), "deserialize")?;
                ok(Flags::from_slice(&b), "from_slice")?;
                ok(Flags::from_element_flags_ref(&b), "from_element_flags_ref")?;
                let some = Some(b.clone());
                ok(Flags::map_some_element_flags_ref(&some), "map_some_element_flags_ref")?;
                ok(
                    Flags::map_cow_some_element_flags_ref(&some).map(|o| o.map(Cow::into_owned)),
                    "map_cow_some_element_flags_ref",
                )?;
                ensure_eq!(Flags::map_owned_to_element_flags(Some(f.clone())), b, "map_owned_to_element_flags");
                ensure_eq!(Flags::map_to_some_element_flags(Some(&f)), some, "map_to_some_element_flags");
                ensure_eq!(
                    Flags::map_cow_to_some_element_flags(Some(Cow::Borrowed(&f))),
                    some,
                    "map_cow_to_some_element_flags"
                );
                ensure_eq!(
                    Flags::map_borrowed_cow_to_some_element_flags(&f.clone().into_optional_cow()),
                    some,
                    "map_borrowed_cow_to_some_element_flags"
                );
                ensure_eq!(f.to_some_element_flags(), some, "to_some_element_flags");
                ensure_eq!(f.to_element_flags(), b, "to_element_flags");
                // what is cut off or extended is refused, or is another encoding
                let exact = |b: &[u8]| -> Res {
                    ctx.step();
                    if let Ok(Some(g)) = Flags::deserialize(b) {
                        let g = M::of(&g);
                        ensure!(
                            g.bytes() == b || (g.later.len() as u64) < entries(b),
                            "{} is taken for {g:?}",
                            kit::hex(b)
                        );
                    }
                    Ok(())
                };
                for n in 1..b.len() {
                    exact(&b[..n])?;
                    ensure!(
                        Flags::deserialize(&b[..n]).map_or(true, |g| g != Some(f.clone())),
                        "its first {n} bytes say the same"
                    );
                }
                for x in [0u8, 1, 0x7f, 0x80, 0xff] {
                    for tail in [vec![x], vec![x, 0], vec![0, x], vec![x, x]] {
                        let mut e = b.clone();
                        e.extend(&tail);
                        ensure!(
                            Flags::deserialize(&e).is_err(),
                            "accepted with {} after it",
                            kit::hex(&tail)
                        );
                    }
                }
                // setting an owner
                let mut g = f.clone();
                let mut want = m.clone();
                if want.owner.is_some() {
                    want.owner = Some([7; 32]);
                }
                g.set_owner_id([7; 32]);
                ensure_eq!(M::of(&g), want, "set_owner_id");
                // the estimate for as many changes of that size is not exceeded
                let widest = m
                    .later
                    .values()
                    .map(|n| (32 - n.leading_zeros()).div_ceil(7).max(1))
                    .max();
                let est = Flags::approximate_size(
                    m.owner.is_some(),
                    widest.map(|w| (m.later.len() as u16, w as u8)),
                );
                ensure!(est >= f.serialized_size(), "estimated as {est}");
                if m.later.len() <= 1 {
                    ensure_eq!(est, f.serialized_size(), "estimate");
                }
                if m.later.is_empty() {
                    ensure_eq!(Flags::new_single_epoch(m.base, m.owner), f, "new_single_epoch");
                }
                let shown = f.to_string();
                ensure!(shown.contains(&format!("BaseEpoch: {}", m.base)), "shown as {shown}");
                Ok(())
            },
        );
    });
    ctx.case(
        || "codec: no flags".into(),
        || {
            ensure!(matches!(Flags::deserialize(&[]), Ok(None)), "empty bytes");
            ensure!(matches!(Flags::map_some_element_flags_ref(&None), Ok(None)), "none");
            ensure!(matches!(Flags::map_cow_some_element_flags_ref(&None), Ok(None)), "none (cow)");
            ensure_eq!(Flags::map_owned_to_element_flags(None), Vec::<u8>::new(), "none, owned");
            ensure_eq!(Flags::map_to_some_element_flags(None), None, "none, ref");
            ensure_eq!(Flags::map_cow_to_some_element_flags(None), None, "none, cow");
            ensure_eq!(Flags::map_borrowed_cow_to_some_element_flags(&None), None, "none, &cow");
            Ok(())
        },
    );
}

/// How many entries an encoding of several epochs has, however they are
/// ordered.
fn entries(b: &[u8]) -> u64 {
    let at = match b.first() {
        Some(1) => 3,
        Some(3) => 35,
        _ => return 0,
    };
    let (mut i, mut n) = (at, 0);
    while i + 2 < b.len() {
        i += 2;
        while i < b.len() && b[i] >= 128 {
            i += 1;
        }
        i += 1;
        n += 1;
    }
    n
}

fn decoder(ctx: &Ctx) {
    ctx.bound(format!("decoder: all byte strings up to 2 bytes, and of each kind with all tails up to {} of 6 bytes", ctx.pick(6, 8)));
    let total = |b: &[u8]| -> Res {
        ctx.step();
        let r = Flags::deserialize(b);
        ensure_eq!(matches!(r, Ok(None)), b.is_empty(), "none for {}", kit::hex(b));
        if let Ok(Some(f)) = r {
            let m = M::of(&f);
            ensure!(m.flags() == f, "{} is not well formed: {f:?}", kit::hex(b));
            ensure!(f.serialize() == m.bytes(), "encoding of {m:?}");
            let g = Flags::deserialize(&m.bytes());
            ensure!(matches!(&g, Ok(Some(g)) if *g == f), "{} gives {f:?}, which reads back as {g:?}", kit::hex(b));
            let (k, v) = Flags::split_removal_bytes(&mut b.to_vec(), 2, 9).map_err(|e| e.to_string())?;
            ensure_eq!((k.total_removed_bytes(), v.total_removed_bytes()), (2, 9), "split for {}", kit::hex(b));
        } else if r.is_err() {
            ensure!(Flags::split_removal_bytes(&mut b.to_vec(), 1, 1).is_err(), "split by unreadable flags");
        }
        Ok(())
    };
    let firsts: Vec<u8> = (0..=255).collect();
    ctx.par(&firsts, |a| {
        ctx.case(
            || format!("decoder: {a:02x}.."),
            || {
                total(&[])?;
                total(&[*a])?;
                (0..=255u8).try_for_each(|b| total(&[*a, b]))
            },
        );
    });
    let unit = [0u8, 1, 5, 0x7f, 0x80, 0xff];
    let mut heads: Vec<Vec<u8>> = vec![];
    for t in 0..=4u8 {
        let mut h = vec![t];
        if t >= 2 {
            h.extend([9; 32]);
        }
        for u in unit {
            let mut h = h.clone();
            h.push(u);
            heads.push(h);
        }
    }
    ctx.par(&heads, |h| {
        ctx.case(
            || format!("decoder: {}..", kit::hex(h)),
            || {
                let mut bad = Ok(());
                kit::sequences_upto(unit.len(), ctx.pick(6, 8), |s| {
                    if bad.is_ok() {
                        let mut b = h.clone();
                        b.extend(s.iter().map(|i| unit[*i]));
                        // a base epoch repeated among the later ones is nothing
                        // that is ever written
                        bad = total(&b).or_else(|e| {
                            match Flags::deserialize(&b) {
                                Ok(Some(f)) if f.epoch_index_map().is_some_and(|m| m.keys().any(|k| k <= f.base_epoch())) => Ok(()),
                                _ => Err(e),
                            }
                        });
                    }
                });
                bad
            },
        );
    });
}

const AMOUNTS: [u32; 14] = [
    0, 1, 2, 3, 4, 5, 17, 18, 20, 21, 300, u32::MAX - 3, u32::MAX - 2, u32::MAX,
];

fn splits(ctx: &Ctx) {
    let mut l = all(&[0, 4], &[5, 6, 300], &[1, 3, 4, 20, u32::MAX], 3);
    l.extend(many());
    ctx.bound(format!("splits: {} flags, {} amounts of key and of value bytes", l.len(), AMOUNTS.len()));
    ctx.par(&l, |m| {
        ctx.case(
            || format!("split {m:?}"),
            || {
                let f = m.flags();
                for k in AMOUNTS {
                    for v in AMOUNTS {
                        ctx.step();
                        let got = f.split_storage_removed_bytes(k, v);
                        let want = |n: u32, r: Removed| match n {
                            0 => NoStorageRemoval,
                            _ => sections(m.owner, &r),
                        };
                        let w = (want(k, Removed::from([(m.base, k)])), want(v, m.split(v)));
                        ensure!(same_removal(&got.0, &w.0), "key, {k} bytes: {:?}, expected {:?}", got.0, w.0);
                        ensure!(same_removal(&got.1, &w.1), "value, {v} bytes: {:?}, expected {:?}", got.1, w.1);
                        ensure_eq!(got.1.total_removed_bytes(), v, "removed altogether");
                        let again = Flags::split_removal_bytes(&mut m.bytes(), k, v).map_err(|e| e.to_string())?;
                        ensure!(again == got, "split_removal_bytes {again:?}");
                    }
                }
                let none = Flags::split_removal_bytes(&mut vec![], 4, 9).map_err(|e| e.to_string())?;
                ensure!(none == (BasicStorageRemoval(4), BasicStorageRemoval(9)), "without flags {none:?}");
                Ok(())
            },
        );
    });
}

/// Flags of elements paid for in many epochs.
fn many() -> Vec<M> {
    let mut l = vec![];
    for owner in owners().into_iter().take(2) {
        for n in [21, 70, 300] {
            l.push(M { base: 1, later: (2..2 + n).map(|e| (e, 6 + u32::from(e % 5))).collect(), owner });
        }
    }
    l
}

/// Equal apart from entries that remove nothing.
fn same_removal(a: &StorageRemovedBytes, b: &StorageRemovedBytes) -> bool {
    let norm = |r: &StorageRemovedBytes| -> BTreeMap<([u8; 32], u16), u32> {
        match r {
            SectionedStorageRemoval(s) => s
                .iter()
                .flat_map(|(id, m)| m.iter().map(move |(e, n)| ((*id, e), *n)))
                .filter(|(_, n)| *n != 0)
                .collect(),
            _ => BTreeMap::new(),
        }
    };
    std::mem::discriminant(a) == std::mem::discriminant(b) && norm(a) == norm(b)
}

fn merges(ctx: &Ctx) {
    let l = all(&[1, 2], &[2, 3], ctx.pick(&[4, 20][..], &[2, 4, 20, u32::MAX]), 2);
    let l = [l, many()].concat();
    let strategies = [Strategy::RaiseIssue, Strategy::UseOurs, Strategy::UseTheirs];
    let os = owners();
    let mut removals = vec![NoStorageRemoval, BasicStorageRemoval(5), SectionedStorageRemoval(BTreeMap::new())];
    for o in &os {
        for r in [
            vec![(1, 3)],
            vec![(2, 1)],
            vec![(2, 17)],
            vec![(3, 16)],
            vec![(3, 21)],
            vec![(2, 1), (3, 17)],
            vec![(1, 9), (2, 16), (3, 1)],
            vec![(7, 1)],
            (2..60).map(|e| (e, 3)).collect(),
        ] {
            removals.push(sections(*o, &r.into_iter().collect()));
        }
    }
    let mut both = BTreeMap::new();
    for o in &os[..2] {
        if let SectionedStorageRemoval(s) = sections(*o, &Removed::from([(2, 1)])) {
            both.extend(s);
        }
    }
    removals.push(SectionedStorageRemoval(both));
    ctx.bound(format!(
        "merges: all pairs of {} flags, 3 strategies, 5 amounts added, {} removals",
        l.len(),
        removals.len()
    ));
    ctx.par(&l, |a| {
        ctx.case(
            || format!("merge {a:?}"),
            || {
                for b in &l {
                    for s in strategies {
                        for n in [0, 1, 5, u32::MAX - 20, u32::MAX] {
                            ctx.step();
                            let got = a.flags().combine_added_bytes(b.flags(), n, s);
                            agree(&got, a.grow(b, n, s)).map_err(|e| format!("{n} bytes added, {b:?}, {s:?}: {e}"))?;
                            let again = Flags::optional_combine_added_bytes(Some(a.flags()), b.flags(), n, s);
                            ensure_eq!(again.ok(), got.ok(), "optional_combine_added_bytes");
                        }
                        for r in &removals {
                            ctx.step();
                            let got = a.flags().combine_removed_bytes(b.flags(), r, s);
                            agree(&got, a.shrink(b, r, s)).map_err(|e| format!("{r:?} removed, {b:?}, {s:?}: {e}"))?;
                            let again = Flags::optional_combine_removed_bytes(Some(a.flags()), b.flags(), r, s);
                            ensure_eq!(again.ok(), got.ok(), "optional_combine_removed_bytes");
                        }
                    }
                }
                let s = Strategy::RaiseIssue;
                ensure_eq!(Flags::optional_combine_added_bytes(None, a.flags(), 3, s).ok(), Some(a.flags()), "onto nothing");
                ensure_eq!(
                    Flags::optional_combine_removed_bytes(None, a.flags(), &NoStorageRemoval, s).ok(),
                    Some(a.flags()),
                    "onto nothing"
                );
                Ok(())
            },
        );
    });
}

fn agree(got: &Result<Flags, StorageFlagsError>, want: Result<M, ()>) -> Res {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ensure_eq!(*g, w.flags(), "merged flags");
        }
        (Err(_), Err(())) => {}
        (g, w) => return Err(format!("gave {g:?}, expected {w:?}")),
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Change {
    Grow(u32),
    Shrink(u32),
    Same,
    /// nothing that is an update
    Other(u8),
}

/// An element that is updated again and again as time goes by.
fn histories(ctx: &Ctx) {
    let mut changes: Vec<Change> = [1, 3, 4, 20, 200].map(Change::Grow).to_vec();
    changes.extend([1, 2, 5, 17, 60, 1000].map(Change::Shrink));
    changes.push(Change::Same);
    changes.extend([Change::Other(0), Change::Other(1)]);
    let os = owners();
    // the next step: how much later, by whom, and what
    let mut steps = vec![];
    for dt in [0u16, 1, 2] {
        for o in 0..os.len() {
            for c in &changes {
                steps.push((dt, o, *c));
            }
        }
    }
    let depth = ctx.pick(4, 5);
    ctx.bound(format!(
        "histories: an element of each of 3 owners, {} next steps (0 to 2 epochs later, by one of 3 owners, grown, shrunk or kept), all distinct states up to {depth} steps",
        steps.len()
    ));
    let mut level: Vec<(u16, M)> = os
        .iter()
        .map(|o| (3, M { base: 3, later: BTreeMap::new(), owner: *o }))
        .collect();
    for d in 0..depth {
        let next = std::sync::Mutex::new(vec![]);
        ctx.par(&level, |(now, m)| {
            ctx.case(
                || format!("update {m:?} in epoch {now}, after {d} steps"),
                || {
                    for (dt, o, c) in &steps {
                        ctx.step();
                        let at = now + dt;
                        let n = M { base: at, later: BTreeMap::new(), owner: os[*o] };
                        let mut cost = StorageCost {
                            added_bytes: 0,
                            replaced_bytes: 10,
                            removed_bytes: NoStorageRemoval,
                        };
                        let want = match c {
                            Change::Grow(k) => {
                                cost.added_bytes = *k;
                                m.grow(&n, *k, Strategy::UseTheirs)
                            }
                            Change::Shrink(k) => {
                                cost.removed_bytes = m.flags().split_storage_removed_bytes(0, *k).1;
                                m.shrink(&n, &cost.removed_bytes, Strategy::UseTheirs)
                            }
                            Change::Same => Ok(m.clone()),
                            Change::Other(k) => {
                                cost.replaced_bytes = 0;
                                if *k == 1 {
                                    cost.added_bytes = 9;
                                }
                                Ok(n.clone())
                            }
                        };
                        let want = want.map_err(|_| format!("the model refuses {c:?} in {at} by {o}"))?;
                        // what is paid for stays paid for, what is refunded is gone
                        let sum = |m: &M| m.later.values().map(|v| *v as u64).sum::<u64>();
                        match c {
                            Change::Grow(k) if at > m.base => {
                                ensure_eq!(sum(&want), sum(m) + *k as u64, "model: paid");
                            }
                            Change::Shrink(k) => {
                                ensure!(sum(&want) <= sum(m) && sum(&want) + *k as u64 + (FLOOR as u64 * m.later.len() as u64) >= sum(m), "model: refunded");
                            }
                            _ => {}
                        }
                        let mut new = n.bytes();
                        let r = Flags::update_element_flags(&cost, Some(m.bytes()), &mut new)
                            .map_err(|e| format!("{c:?} in {at} by {o}: {e}"))?;
                        ensure!(
                            new == want.bytes(),
                            "{c:?} in {at} by {o} gave {:?}, expected {want:?}",
                            Flags::deserialize(&new)
                        );
                        ensure!(r || new == n.bytes(), "{c:?} in {at} by {o}: changed without saying so");
                        ensure!(
                            !r || matches!(c, Change::Same) || new != n.bytes(),
                            "{c:?} in {at} by {o}: says it changed"
                        );
                        if !matches!(c, Change::Other(_)) && ctx.state(format!("{at} {want:?}").as_bytes()) {
                            next.lock().unwrap().push((at, want));
                        }
                        // neither written over nor updated: left alone
                        for other in [(7, 0, 0), (0, 0, 7), (0, 0, 0)] {
                            let cost = StorageCost {
                                added_bytes: other.0,
                                replaced_bytes: other.1,
                                removed_bytes: match other.2 {
                                    0 => NoStorageRemoval,
                                    k => BasicStorageRemoval(k),
                                },
                            };
                            let mut e = n.bytes();
                            let r = Flags::update_element_flags(&cost, Some(m.bytes()), &mut e);
                            ensure_eq!(r.map_err(|e| e.to_string())?, false, "{other:?} says it changed the flags");
                            ensure_eq!(e, n.bytes(), "{other:?} changed the flags");
                        }
                        // flags that cannot be read, or go away
                        let mut e = vec![];
                        ensure!(
                            Flags::update_element_flags(&cost, Some(m.bytes()), &mut e).is_err(),
                            "flags were removed"
                        );
                        let mut e = n.bytes();
                        ensure!(Flags::update_element_flags(&cost, Some(vec![]), &mut e).is_err(), "flags without a payer before");
                        ensure!(Flags::update_element_flags(&cost, Some(vec![9]), &mut e).is_err(), "unreadable flags before");
                        ensure!(!Flags::update_element_flags(&cost, None, &mut e).map_err(|e| e.to_string())?, "no flags before");
                        ensure_eq!(e, n.bytes(), "no flags before");
                    }
                    Ok(())
                },
            );
        });
        level = next.into_inner().unwrap();
        if ctx.out_of_time() {
            return;
        }
    }
}
