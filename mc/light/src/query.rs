//! Query items, queries and their encodings.

use std::{collections::BTreeSet, ops::RangeFull};

use grovedb_costs::{CostContext, CostsExt, OperationCost};
use grovedb_query::{
    query_item::intersect::Direction, AggregateSumQuery, ProofItems, Query, QueryItem,
    SubqueryBranch,
};
use grovedb_storage::RawIterator;
use kit::{ensure, ensure_eq, hex, Ctx, Res, Spec};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C06", level: "model_checking", run: c06 },
        Spec { id: "C07", level: "model_checking", run: c07 },
        Spec { id: "C08", level: "model_checking", run: c08 },
        Spec { id: "C09", level: "model_checking", run: c09 },
        Spec { id: "C12", level: "model_checking", run: c12 },
    ]
}

pub type K = Vec<u8>;

/// The oracle: what a query item selects, straight from the documentation.
pub fn selects(i: &QueryItem, k: &[u8]) -> bool {
    match i {
        QueryItem::Key(a) => k == &a[..],
        QueryItem::Range(r) => k >= &r.start[..] && k < &r.end[..],
        QueryItem::RangeInclusive(r) => k >= &r.start()[..] && k <= &r.end()[..],
        QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => k >= &r.start[..],
        QueryItem::RangeTo(r) => k < &r.end[..],
        QueryItem::RangeToInclusive(r) => k <= &r.end[..],
        QueryItem::RangeAfter(r) => k > &r.start[..],
        QueryItem::RangeAfterTo(r) => k > &r.start[..] && k < &r.end[..],
        QueryItem::RangeAfterToInclusive(r) => k > &r.start()[..] && k <= &r.end()[..],
    }
}

fn any(items: &[QueryItem], k: &[u8]) -> bool {
    items.iter().any(|i| selects(i, k))
}

pub fn show(i: &QueryItem) -> String {
    match i {
        QueryItem::Key(a) => hex(a),
        QueryItem::Range(r) => format!("{}..{}", hex(&r.start), hex(&r.end)),
        QueryItem::RangeInclusive(r) => format!("{}..={}", hex(r.start()), hex(r.end())),
        QueryItem::RangeFull(_) => "..".into(),
        QueryItem::RangeFrom(r) => format!("{}..", hex(&r.start)),
        QueryItem::RangeTo(r) => format!("..{}", hex(&r.end)),
        QueryItem::RangeToInclusive(r) => format!("..={}", hex(&r.end)),
        QueryItem::RangeAfter(r) => format!("({}..", hex(&r.start)),
        QueryItem::RangeAfterTo(r) => format!("({}..{}", hex(&r.start), hex(&r.end)),
        QueryItem::RangeAfterToInclusive(r) => format!("({}..={}", hex(r.start()), hex(r.end())),
    }
}

pub fn shows(v: &[QueryItem]) -> String {
    v.iter().map(show).collect::<Vec<_>>().join(" ")
}

/// Every item over the bounds; with `proper` only ranges that are not inverted
/// and not empty by construction.
pub fn items(bounds: &[K], proper: bool) -> Vec<QueryItem> {
    let mut v = vec![QueryItem::RangeFull(RangeFull)];
    for a in bounds {
        let a = || a.clone();
        v.push(QueryItem::Key(a()));
        v.push(QueryItem::RangeFrom(a()..));
        if !proper || !a().is_empty() {
            v.push(QueryItem::RangeTo(..a()));
        }
        v.push(QueryItem::RangeToInclusive(..=a()));
        v.push(QueryItem::RangeAfter(a()..));
    }
    for a in bounds {
        for b in bounds {
            let (a, b) = (|| a.clone(), || b.clone());
            if !proper || a() < b() {
                v.push(QueryItem::Range(a()..b()));
                v.push(QueryItem::RangeAfterTo(a()..b()));
                v.push(QueryItem::RangeAfterToInclusive(a()..=b()));
            }
            if !proper || a() <= b() {
                v.push(QueryItem::RangeInclusive(a()..=b()));
            }
        }
    }
    v
}

/// All byte strings up to `len` over the alphabet, sorted.
pub fn strings(alphabet: &[u8], len: usize) -> Vec<K> {
    let mut v = vec![];
    kit::sequences_upto(alphabet.len(), len, |s| {
        v.push(s.iter().map(|i| alphabet[*i]).collect::<K>())
    });
    v.sort();
    v
}

fn bits(items: &[QueryItem], probes: &[K]) -> Vec<u8> {
    probes.iter().map(|k| any(items, k) as u8).collect()
}

fn opt(i: &Option<QueryItem>) -> Vec<QueryItem> {
    i.iter().cloned().collect()
}

// ---------------------------------------------------------------------- C06

fn c06(c: &Ctx) {
    let bounds: Vec<K> = vec![
        vec![],
        vec![0],
        vec![0, 0],
        vec![1],
        vec![1, 0xff],
        vec![0xff],
        vec![0xff, 0xff],
    ];
    let probes = strings(&[0, 1, 2, 0xff], 3);
    let all = items(&bounds, false);
    let proper = items(&bounds, true);
    c.bound(format!(
        "{} items ({} proper) over bounds of lengths 0..2, {} probe keys of lengths 0..3 over 00 01 02 ff",
        all.len(),
        proper.len(),
        probes.len()
    ));

    // single items, including inverted and empty ranges
    for i in &all {
        c.case(
            || format!("item {}", show(i)),
            || {
                for k in &probes {
                    c.step();
                    ensure_eq!(i.contains(k), selects(i, k), "contains {}", hex(k));
                    let (lo, lo_ex) = i.lower_bound();
                    let (hi, hi_in) = i.upper_bound();
                    let by_bounds = lo.is_none_or(|l| &k[..] > l || (&k[..] == l && !lo_ex))
                        && hi.is_none_or(|h| &k[..] < h || (&k[..] == h && hi_in));
                    ensure_eq!(by_bounds, selects(i, k), "bounds at {}", hex(k));
                    let b = i.to_range_set_borrowed().ok_or("no borrowed range set")?;
                    let r = b.could_contain_key(k);
                    ensure_eq!(r.included, selects(i, k), "borrowed set at {}", hex(k));
                    let left = probes.iter().any(|p| p < k && selects(i, p));
                    let right = probes.iter().any(|p| p > k && selects(i, p));
                    ensure!(
                        !left || b.could_have_items_in_direction(k, Direction::LeftOf),
                        "left of {} denied",
                        hex(k)
                    );
                    ensure!(
                        !right || b.could_have_items_in_direction(k, Direction::RightOf),
                        "right of {} denied",
                        hex(k)
                    );
                }
                ensure_eq!(i.is_key(), matches!(i, QueryItem::Key(_)), "is_key");
                ensure_eq!(i.is_range(), !matches!(i, QueryItem::Key(_)), "is_range");
                ensure_eq!(i.is_single(), i.is_key(), "is_single");
                let (lo, hi) = (i.lower_bound().0, i.upper_bound().0);
                ensure_eq!(i.lower_unbounded(), lo.is_none(), "lower_unbounded");
                ensure_eq!(i.upper_unbounded(), hi.is_none(), "upper_unbounded");
                ensure_eq!(
                    i.is_unbounded_range(),
                    !matches!(
                        i,
                        QueryItem::Key(_) | QueryItem::Range(_) | QueryItem::RangeInclusive(_)
                    ),
                    "is_unbounded_range"
                );
                if let Some(q) = i.to_range_set().to_query_item() {
                    ensure_eq!(bits(&[q], &probes), bits(&[i.clone()], &probes), "range set");
                } else {
                    return Err("range set is no item".into());
                }
                c.state(&bits(std::slice::from_ref(i), &probes));
                Ok(())
            },
        );
    }

    // the order is a total order by (start, end)
    c.par(&all, |a| {
        c.case(
            || format!("order {}", show(a)),
            || {
                for b in &all {
                    let ab = a.cmp(b);
                    ensure_eq!(b.cmp(a), ab.reverse(), "antisymmetry with {}", show(b));
                    ensure_eq!(a.partial_cmp(b), Some(ab), "partial_cmp with {}", show(b));
                    for d in &all {
                        c.step();
                        if ab.is_le() && b.cmp(d).is_le() {
                            ensure!(a.cmp(d).is_le(), "transitivity {} {}", show(b), show(d));
                        }
                    }
                }
                Ok(())
            },
        );
    });
    // among disjoint items the order is the order of the keys
    c.par(&proper, |a| {
        c.case(
            || format!("intersect {}", show(a)),
            || {
                for b in &proper {
                    c.step();
                    let r = a.intersect(b);
                    let parts = [
                        opt(&r.in_both),
                        opt(&r.ours_left),
                        opt(&r.ours_right),
                        opt(&r.theirs_left),
                        opt(&r.theirs_right),
                    ];
                    let w = || format!("with {}", show(b));
                    for k in &probes {
                        let (ia, ib) = (selects(a, k), selects(b, k));
                        let s: Vec<bool> = parts.iter().map(|p| any(p, k)).collect();
                        ensure_eq!(s[0], ia && ib, "{} in both {}", w(), hex(k));
                        ensure_eq!(s[1] || s[2], ia && !ib, "{} ours {}", w(), hex(k));
                        ensure_eq!(s[3] || s[4], !ia && ib, "{} theirs {}", w(), hex(k));
                        ensure!(!(s[1] && s[2]) && !(s[3] && s[4]), "{} overlap {}", w(), hex(k));
                        // leftovers lie on their side of what is shared
                        for k2 in &probes {
                            if selects(a, k2) && selects(b, k2) {
                                ensure!(!(s[1] || s[3]) || k < k2, "{} left {}", w(), hex(k));
                                ensure!(!(s[2] || s[4]) || k > k2, "{} right {}", w(), hex(k));
                            }
                        }
                    }
                    let shared = probes.iter().any(|k| selects(a, k) && selects(b, k));
                    ensure!(!shared || a.collides_with(b), "{} collides", w());
                    if a.collides_with(b) {
                        let m = a.merge(b);
                        ensure_eq!(
                            bits(&[m.clone()], &probes),
                            bits(&[a.clone(), b.clone()], &probes),
                            "{} merge",
                            w()
                        );
                        let mut m2 = a.clone();
                        m2.merge_assign(b);
                        ensure_eq!(m2, m, "{} merge_assign", w());
                    } else {
                        // disjoint: all keys of the smaller are smaller
                        for k in &probes {
                            for k2 in &probes {
                                if selects(a, k) && selects(b, k2) {
                                    ensure_eq!(a.cmp(b), k.cmp(k2), "{} order", w());
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    });

    // every sequence of insertions
    let small: Vec<K> = c.pick(
        vec![vec![], vec![1], vec![1, 0], vec![2]],
        vec![vec![], vec![1], vec![1, 0], vec![2], vec![0xff]],
    );
    let ins = items(&small, true);
    let probes2 = strings(&[0, 1, 2, 0xff], 2);
    let len = 3;
    c.bound(format!(
        "all insertion sequences of length <= {len} of {} items",
        ins.len()
    ));
    let firsts: Vec<usize> = (0..ins.len()).collect();
    c.par(&firsts, |f| {
        kit::sequences_upto(ins.len(), len - 1, |rest| {
            let seq: Vec<QueryItem> = std::iter::once(*f)
                .chain(rest.iter().copied())
                .map(|i| ins[i].clone())
                .collect();
            c.case(
                || format!("insert {}", shows(&seq)),
                || insert_case(c, &seq, &probes2),
            );
        });
    });

    // many against many
    let ordered = ordered_sets(&items(&[vec![], vec![1], vec![1, 0], vec![2]], true), 2, &probes2);
    let theirs = ordered_sets(&items(&[vec![0], vec![1], vec![2]], true), c.pick(2, 3), &probes2);
    c.bound(format!(
        "intersect_many_ordered: {} x {} ordered disjoint item lists",
        ordered.len(),
        theirs.len()
    ));
    c.par(&ordered, |o| {
        c.case(
            || format!("many {}", shows(o)),
            || {
                for t in &theirs {
                    c.step();
                    let mut ours = o.clone();
                    let r = QueryItem::intersect_many_ordered(&mut ours, t.clone());
                    let w = || format!("with {}", shows(t));
                    for k in &probes2 {
                        let (a, b) = (any(o, k), any(t, k));
                        let get = |v: &Option<Vec<QueryItem>>| {
                            v.iter().flatten().filter(|i| selects(i, k)).count()
                        };
                        ensure_eq!(get(&r.in_both), (a && b) as usize, "{} both {}", w(), hex(k));
                        ensure_eq!(get(&r.ours), (a && !b) as usize, "{} ours {}", w(), hex(k));
                        ensure_eq!(get(&r.theirs), (b && !a) as usize, "{} theirs {}", w(), hex(k));
                    }
                }
                Ok(())
            },
        );
    });

    // long keys that differ at their ends only
    let long = |k: &K| -> K { std::iter::repeat_n(7, 200).chain(k.iter().copied()).collect() };
    let few: Vec<K> = vec![vec![], vec![0], vec![1], vec![1, 0], vec![0xff]];
    let proper_few = items(&few, true);
    let long_items: Vec<(QueryItem, QueryItem)> = items(&few, false)
        .into_iter()
        .zip(items(&few.iter().map(long).collect::<Vec<K>>(), false))
        .filter(|(i, _)| proper_few.contains(i))
        .collect();
    let short_probes = strings(&[0, 1, 0xff], 2);
    c.bound(format!("{} items over keys of 200 bytes and more that differ at their ends, all pairs, against those of short keys", long_items.len()));
    c.par(&long_items, |(a, la)| {
        c.case(
            || format!("long {}", show(a)),
            || {
                for (x, y) in short_probes.iter().flat_map(|x| short_probes.iter().map(move |y| (x, y))) {
                    ensure_eq!(QueryItem::compare(&long(x), &long(y)), x.cmp(y), "{} against {}", hex(x), hex(y));
                }
                for k in &short_probes {
                    ensure_eq!(la.contains(&long(k)), selects(a, k), "contains {}", hex(k));
                }
                for (b, lb) in &long_items {
                    c.step();
                    let w = || show(b);
                    let unbounded = a.lower_unbounded() || a.upper_unbounded() || b.lower_unbounded() || b.upper_unbounded();
                    ensure_eq!(la.collides_with(lb), a.collides_with(b), "collides with {}", w());
                    if !unbounded {
                        ensure_eq!(la.cmp(lb), a.cmp(b), "order against {}", w());
                    }
                    let r = la.intersect(lb);
                    let m = la.merge(lb);
                    for k in &short_probes {
                        let (sa, sb) = (selects(a, k), selects(b, k));
                        let n = |l: &[&Option<QueryItem>]| l.iter().filter(|o| o.as_ref().is_some_and(|i| selects(i, &long(k)))).count();
                        ensure_eq!(n(&[&r.in_both]), (sa && sb) as usize, "in both, with {}, {}", w(), hex(k));
                        ensure_eq!(n(&[&r.ours_left, &r.ours_right]), (sa && !sb) as usize, "ours, with {}, {}", w(), hex(k));
                        ensure_eq!(n(&[&r.theirs_left, &r.theirs_right]), (sb && !sa) as usize, "theirs, with {}, {}", w(), hex(k));
                        if sa || sb {
                            ensure!(selects(&m, &long(k)), "merged with {}: {} is lost", w(), hex(k));
                        }
                    }
                }
                Ok(())
            },
        );
    });

    // long lists against each other
    let two = |i: usize| vec![i as u8];
    let shapes: Vec<Vec<QueryItem>> = [0usize, 1, 2, 3]
        .iter()
        .flat_map(|kind| {
            c.pick(vec![7, 12, 25], vec![5, 6, 7, 12, 20, 25, 40]).into_iter().flat_map(move |n: usize| {
                (0..3usize).map(move |off| {
                    (0..n)
                        .map(|i| {
                            let at = off + 6 * i;
                            match kind {
                                0 => QueryItem::Key(two(at)),
                                1 => QueryItem::Range(two(at)..two(at + 4)),
                                2 => QueryItem::RangeInclusive(two(at)..=two(at + 2)),
                                _ => QueryItem::RangeAfterToInclusive(two(at)..=two(at + 5)),
                            }
                        })
                        .collect()
                })
            })
        })
        .chain([vec![QueryItem::RangeFull(..)], vec![QueryItem::RangeFrom(vec![9]..)], vec![QueryItem::Range(vec![3]..vec![140])]])
        .collect();
    let bytes: Vec<K> = strings(&(0..=255).collect::<Vec<u8>>(), 1);
    c.bound(format!("intersect_many_ordered and insertion: {} long lists of up to 25 (thorough: 40) items, all pairs", shapes.len()));
    c.par(&shapes, |o| {
        c.case(
            || format!("long list {}", shows(o)),
            || {
                for t in &shapes {
                    c.step();
                    let mut ours = o.clone();
                    let r = QueryItem::intersect_many_ordered(&mut ours, t.clone());
                    let mut q = Query::new();
                    q.insert_items(o.clone());
                    q.insert_items(t.clone());
                    for k in &bytes {
                        let (a, b) = (any(o, k), any(t, k));
                        let get = |v: &Option<Vec<QueryItem>>| v.iter().flatten().filter(|i| selects(i, k)).count();
                        ensure_eq!(get(&r.in_both), (a && b) as usize, "with {} both {}", shows(t), hex(k));
                        ensure_eq!(get(&r.ours), (a && !b) as usize, "with {} ours {}", shows(t), hex(k));
                        ensure_eq!(get(&r.theirs), (b && !a) as usize, "with {} theirs {}", shows(t), hex(k));
                        ensure_eq!(q.items.iter().filter(|i| selects(i, k)).count(), (a || b) as usize, "inserted after {}: {}", shows(t), hex(k));
                    }
                }
                Ok(())
            },
        );
    });

    // keys() lists exactly the keys of at most one byte
    let ends: Vec<Option<u8>> = std::iter::once(None).chain((0..=255u8).map(Some)).collect();
    c.bound("keys(): all pairs of bounds of at most one byte");
    c.par(&ends, |s| {
        let a: K = s.iter().copied().collect();
        c.case(
            || format!("keys from {}", hex(&a)),
            || {
                for e in &ends {
                    c.step();
                    let b: K = e.iter().copied().collect();
                    for it in [
                        QueryItem::Range(a.clone()..b.clone()),
                        QueryItem::RangeInclusive(a.clone()..=b.clone()),
                        QueryItem::Key(b.clone()),
                    ] {
                        let mut want: Vec<K> = vec![];
                        for k in &ends {
                            let k: K = k.iter().copied().collect();
                            if selects(&it, &k) {
                                want.push(k);
                            }
                        }
                        let got = it.keys();
                        ensure_eq!(it.clone().keys_consume().ok(), got.as_ref().ok().cloned(), "consume {}", show(&it));
                        match got {
                            Ok(got) => ensure_eq!(got, want, "keys of {}", show(&it)),
                            Err(_) => ensure!(
                                b.is_empty() && !it.is_key(),
                                "keys of {} refused",
                                show(&it)
                            ),
                        }
                    }
                }
                Ok(())
            },
        );
    });
    for it in &all {
        for n in [1usize, 50, 300] {
            c.case(
                || format!("footprint of {} with keys {n} times as long", show(it)),
                || {
                    let long = |k: &[u8]| k.repeat(n);
                    let it = match it {
                        QueryItem::Key(a) => QueryItem::Key(long(a)),
                        QueryItem::Range(r) => QueryItem::Range(long(&r.start)..long(&r.end)),
                        QueryItem::RangeFrom(r) => QueryItem::RangeFrom(long(&r.start)..),
                        QueryItem::RangeToInclusive(r) => QueryItem::RangeToInclusive(..=long(&r.end)),
                        other => other.clone(),
                    };
                    let size = match &it {
                        QueryItem::Key(a) => a.len(),
                        _ => it.lower_bound().0.map_or(0, <[u8]>::len) + it.upper_bound().0.map_or(0, <[u8]>::len),
                    };
                    ensure_eq!(it.processing_footprint() as usize, size, "footprint");
                    Ok(())
                },
            );
        }
        c.case(
            || format!("keys of {}", show(it)),
            || {
                let long = |k: &K| k.len() > 1;
                if let Ok(keys) = it.keys() {
                    for k in &keys {
                        ensure!(selects(it, k), "key {} is not selected", hex(k));
                    }
                    for k in &probes {
                        if selects(it, k) && !long(k) {
                            ensure!(keys.contains(k), "key {} is missing", hex(k));
                        }
                    }
                }
                Ok(())
            },
        );
    }

    // splitting proof items at a key
    let lists = ordered_sets(&items(&[vec![], vec![1], vec![2]], true), c.pick(2, 3), &probes2);
    c.bound(format!("process_key: {} item lists, two levels of keys", lists.len()));
    c.par(&lists, |l| {
        c.case(|| format!("split {}", shows(l)), || split_case(c, l, &probes2));
    });

    // lists of many items, split at keys all along them
    let some = c.pick(vec![24usize, 42], vec![22, 24, 30, 42, 60]);
    c.bound(format!("process_key and insertion: lists of {some:?} items of four shapes"));
    let mut longer = vec![];
    for n in some {
        for kind in 0..6usize {
            let list: Vec<QueryItem> = (0..n)
                .map(|i| {
                    let at = |x: usize| vec![(4 * i + x) as u8];
                    // the last of them may be of another kind
                    let kind = if kind > 3 { if i + 1 < n { kind - 4 } else { 5 - kind } } else { kind };
                    match kind {
                        0 => QueryItem::Key(at(0)),
                        1 => QueryItem::Range(at(0)..at(3)),
                        2 => QueryItem::RangeInclusive(at(0)..=at(2)),
                        _ => QueryItem::RangeAfterTo(at(0)..at(2)),
                    }
                })
                .collect();
            longer.push(list);
        }
    }
    c.par(&longer, |l| {
        let n = l.len();
        let near: Vec<K> = [0, 1, n / 2, n - 2, n - 1].iter().flat_map(|i| (0..4).map(move |x| vec![(4 * i + x) as u8])).collect();
        let near: Vec<K> = near.into_iter().collect::<std::collections::BTreeSet<K>>().into_iter().collect();
        c.case(|| format!("split long {}", shows(l)), || split_case(c, l, &near));
        let probes: Vec<K> = (0..=255u8).map(|b| vec![b]).collect();
        c.case(|| format!("insert long {}", shows(l)), || insert_case(c, l, &probes));
        let backwards: Vec<QueryItem> = l.iter().rev().cloned().collect();
        c.case(|| format!("insert backwards {}", shows(l)), || insert_case(c, &backwards, &probes));
    });

    // walking every search tree over a universe of keys with longer lists
    let universe: Vec<K> = (1..=6).map(|b| vec![b]).collect();
    let bounds: Vec<K> = (2..=5).map(|b| vec![b]).collect();
    let lists = ordered_sets(&items(&bounds, true), c.pick(3, 4), &universe);
    c.bound(format!(
        "process_key along every descent of every search tree over 6 keys: {} item lists",
        lists.len()
    ));
    c.par(&lists, |l| {
        c.case(
            || format!("walk {}", shows(l)),
            || {
                let (root, _) = ProofItems::new_with_query_items(l, false);
                walk(c, l, &root, &universe)
            },
        );
    });
}

/// All lists of at most `n` items that are sorted and pairwise disjoint.
fn ordered_sets(items: &[QueryItem], n: usize, probes: &[K]) -> Vec<Vec<QueryItem>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<QueryItem>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for l in &last {
            for i in items {
                let ok = l.last().is_none_or(|p: &QueryItem| {
                    let max = probes.iter().rev().find(|k| selects(p, k));
                    let min = probes.iter().find(|k| selects(i, k));
                    match (max, min) {
                        (Some(a), Some(b)) => {
                            a < b && !matches!(i.lower_bound().0, Some(l) if Some(l) < p.upper_bound().0)
                                && !i.lower_unbounded()
                                && !p.upper_unbounded()
                        }
                        _ => false,
                    }
                });
                if ok {
                    let mut l = l.clone();
                    l.push(i.clone());
                    next.push(l);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn insert_case(c: &Ctx, seq: &[QueryItem], probes: &[K]) -> Res {
    let mut q = Query::new();
    let mut a = AggregateSumQuery::new(1, None);
    a.items.clear();
    for i in seq {
        c.step();
        // through the specific methods, which must agree with insert_item
        match i {
            QueryItem::Key(k) => q.insert_key(k.clone()),
            QueryItem::Range(r) => q.insert_range(r.clone()),
            QueryItem::RangeInclusive(r) => q.insert_range_inclusive(r.clone()),
            QueryItem::RangeFull(_) => q.insert_all(),
            QueryItem::RangeFrom(r) => q.insert_range_from(r.clone()),
            QueryItem::RangeTo(r) => q.insert_range_to(r.clone()),
            QueryItem::RangeToInclusive(r) => q.insert_range_to_inclusive(r.clone()),
            QueryItem::RangeAfter(r) => q.insert_range_after(r.clone()),
            QueryItem::RangeAfterTo(r) => q.insert_range_after_to(r.clone()),
            QueryItem::RangeAfterToInclusive(r) => q.insert_range_after_to_inclusive(r.clone()),
        }
        match i {
            QueryItem::Key(k) => a.insert_key(k.clone()),
            QueryItem::Range(r) => a.insert_range(r.clone()),
            QueryItem::RangeInclusive(r) => a.insert_range_inclusive(r.clone()),
            QueryItem::RangeFull(_) => a.insert_all(),
            QueryItem::RangeFrom(r) => a.insert_range_from(r.clone()),
            QueryItem::RangeTo(r) => a.insert_range_to(r.clone()),
            QueryItem::RangeToInclusive(r) => a.insert_range_to_inclusive(r.clone()),
            QueryItem::RangeAfter(r) => a.insert_range_after(r.clone()),
            QueryItem::RangeAfterTo(r) => a.insert_range_after_to(r.clone()),
            QueryItem::RangeAfterToInclusive(r) => a.insert_range_after_to_inclusive(r.clone()),
        }
    }
    let mut q2 = Query::new();
    q2.insert_items(seq.to_vec());
    let mut merged = AggregateSumQuery::new_with_query_items(vec![], 0, None);
    merged.items.clear();
    let singles: Vec<AggregateSumQuery> = seq
        .iter()
        .map(|i| AggregateSumQuery::new_single_query_item(i.clone(), 1, Some(1)))
        .collect();
    let multi = AggregateSumQuery::merge_multiple(singles.clone()).map_err(|e| e.to_string())?;
    let mut with = singles[0].clone();
    for s in &singles[1..] {
        with.merge_with(s.clone()).map_err(|e| e.to_string())?;
    }
    ensure_eq!(with.sum_limit, seq.len() as u64, "merge_with sum limit");
    ensure_eq!(multi.sum_limit, seq.len() as u64, "merge_multiple sum limit");
    ensure_eq!(multi.limit_of_items_to_check, Some(seq.len() as u16), "merged limit");
    ensure_eq!(with.limit_of_items_to_check, Some(seq.len() as u16), "merged limit");
    let want = bits(seq, probes);
    // several keys at once are inserted as one by one, also into what is there
    let keys: Vec<K> = seq.iter().filter_map(|i| if let QueryItem::Key(k) = i { Some(k.clone()) } else { None }).collect();
    let others = seq.iter().filter(|i| !matches!(i, QueryItem::Key(_))).cloned();
    let mut q3 = Query::new();
    q3.insert_items(others.clone().collect());
    q3.insert_keys(keys.clone());
    let mut a3 = AggregateSumQuery::new(1, None);
    a3.items.clear();
    others.for_each(|i| a3.insert_item(i));
    a3.insert_keys(keys);
    for (name, got) in [
        ("insert_keys", &q3.items),
        ("aggregate insert_keys", &a3.items),
        ("insert", &q.items),
        ("insert_items", &q2.items),
        ("aggregate insert", &a.items),
        ("merge_multiple", &multi.items),
        ("merge_with", &with.items),
    ] {
        ensure_eq!(bits(got, probes), want, "{name}: {}", shows(got));
        for w in got.windows(2) {
            ensure!(w[0] < w[1], "{name}: not sorted: {}", shows(got));
        }
        for k in probes {
            ensure!(
                got.iter().filter(|i| selects(i, k)).count() <= 1,
                "{name}: {} covered twice by {}",
                hex(k),
                shows(got)
            );
        }
        // iteration in both directions
    }
    ensure_eq!(
        a.has_only_keys(),
        a.items.iter().all(|i| matches!(i, QueryItem::Key(_))),
        "aggregate has_only_keys"
    );
    let f: Vec<_> = q.directional_iter(true).cloned().collect();
    let mut r: Vec<_> = q.directional_iter(false).cloned().collect();
    ensure_eq!(f, q.items, "directional_iter");
    r.reverse();
    ensure_eq!(r, q.items, "directional_iter reversed");
    ensure_eq!(
        q.has_only_keys(),
        q.items.iter().all(|i| matches!(i, QueryItem::Key(_))),
        "has_only_keys"
    );
    c.state(&want);
    Ok(())
}

fn split_case(c: &Ctx, l: &[QueryItem], probes: &[K]) -> Res {
    let (root, params) = ProofItems::new_with_query_items(l, true);
    ensure!(params.left_to_right, "direction");
    ensure_eq!(root.has_no_query_items(), l.is_empty(), "empty");
    for k in probes {
        c.step();
        let (found, edge, left, right) = root.process_key(k);
        ensure_eq!(found, any(l, k), "found {}", hex(k));
        if !found {
            let on_edge = l.iter().any(|i| {
                let (lo, lo_ex) = i.lower_bound();
                let (hi, hi_in) = i.upper_bound();
                (lo == Some(&k[..]) && lo_ex && !i.is_key())
                    || (hi == Some(&k[..]) && !hi_in && !i.is_key())
            });
            ensure_eq!(edge, on_edge, "on the boundary {}", hex(k));
        }
        for (side, sub) in [("left", &left), ("right", &right)] {
            let inside = |p: &K| if side == "left" { p < k } else { p > k };
            let live = probes.iter().any(|p| inside(p) && any(l, p));
            ensure!(
                !live || !sub.has_no_query_items(),
                "{side} of {} lost everything",
                hex(k)
            );
            // nothing is left for a side that no item reaches
            let could = l.iter().any(|i| {
                if side == "left" {
                    i.lower_bound().0.is_none_or(|b| b < &k[..])
                } else {
                    i.upper_bound().0.is_none_or(|b| b > &k[..])
                }
            });
            ensure!(
                could || sub.has_no_query_items(),
                "{side} of {} has items left over",
                hex(k)
            );
            for p in probes.iter().filter(|p| inside(p)) {
                let (f, _, l2, r2) = sub.process_key(p);
                ensure_eq!(f, any(l, p), "{side} of {} then {}", hex(k), hex(p));
                for q in probes.iter().filter(|q| inside(q) && *q != p) {
                    let s = if q < p { &l2 } else { &r2 };
                    let (f, ..) = s.process_key(q);
                    ensure_eq!(f, any(l, q), "{} {} {}", hex(k), hex(p), hex(q));
                }
            }
        }
    }
    Ok(())
}

/// Every key as the root of a search tree over `keys`, recursively.
fn walk(c: &Ctx, l: &[QueryItem], p: &ProofItems, keys: &[K]) -> Res {
    for (i, k) in keys.iter().enumerate() {
        c.step();
        let (found, _, left, right) = p.process_key(k);
        ensure_eq!(found, any(l, k), "{} among {} keys", hex(k), keys.len());
        walk(c, l, &left, &keys[..i])?;
        walk(c, l, &right, &keys[i + 1..])?;
    }
    for k in keys {
        ensure!(!p.has_no_query_items() || !any(l, k), "{} was given up", hex(k));
    }
    Ok(())
}

// ---------------------------------------------------------------------- C07

/// A RocksDB-like raw iterator over a sorted set of keys: once it is not
/// valid, stepping leaves it so.
pub struct ModelIter<'a> {
    keys: &'a [K],
    pos: Option<usize>,
}

fn free<T>(t: T) -> CostContext<T> {
    t.wrap_with_cost(OperationCost::default())
}

impl RawIterator for ModelIter<'_> {
    fn seek_to_first(&mut self) -> CostContext<()> {
        self.pos = (!self.keys.is_empty()).then_some(0);
        free(())
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        self.pos = self.keys.len().checked_sub(1);
        free(())
    }
    fn seek<T: AsRef<[u8]>>(&mut self, key: T) -> CostContext<()> {
        self.pos = self.keys.iter().position(|k| &k[..] >= key.as_ref());
        free(())
    }
    fn seek_for_prev<T: AsRef<[u8]>>(&mut self, key: T) -> CostContext<()> {
        self.pos = self.keys.iter().rposition(|k| &k[..] <= key.as_ref());
        free(())
    }
    fn next(&mut self) -> CostContext<()> {
        self.pos = self.pos.map(|p| p + 1).filter(|p| *p < self.keys.len());
        free(())
    }
    fn prev(&mut self) -> CostContext<()> {
        self.pos = self.pos.and_then(|p| p.checked_sub(1));
        free(())
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        free(self.pos.map(|p| &self.keys[p][..]))
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        free(self.pos.map(|p| &self.keys[p][..]))
    }
    fn valid(&self) -> CostContext<bool> {
        free(self.pos.is_some())
    }
}

fn c07(c: &Ctx) {
    let bounds: Vec<K> = vec![vec![], vec![0], vec![1], vec![1, 0], vec![1, 0xff], vec![0xff]];
    let stored: Vec<K> = c.pick(
        vec![vec![0], vec![0, 0], vec![1], vec![1, 0], vec![1, 0xff], vec![2], vec![0xff]],
        vec![
            vec![],
            vec![0],
            vec![0, 0],
            vec![1],
            vec![1, 0],
            vec![1, 0xff],
            vec![1, 0xff, 0],
            vec![2],
            vec![0xff],
            vec![0xff, 0xff],
        ],
    );
    let all = items(&bounds, false);
    let sets: Vec<usize> = (0..1usize << stored.len()).collect();
    c.bound(format!(
        "{} items x every subset of {} stored keys x both directions x limits none,0..3 and aggregate limits none,-1..2",
        all.len(),
        stored.len()
    ));
    c.par(&sets, |s| {
        let keys: Vec<K> = (0..stored.len())
            .filter(|i| s >> i & 1 == 1)
            .map(|i| stored[i].clone())
            .collect();
        for it in &all {
            for ltr in [true, false] {
                c.case(
                    || format!("scan {} over {:?} ltr={ltr}", show(it), keys.iter().map(|k| hex(k)).collect::<Vec<_>>()),
                    || {
                        let mut want: Vec<K> = keys.iter().filter(|k| selects(it, k)).cloned().collect();
                        if !ltr {
                            want.reverse();
                        }
                        for limit in [None, Some(0u16), Some(1), Some(2), Some(3)] {
                            let mut iter = ModelIter { keys: &keys, pos: None };
                            let mut left = limit;
                            let mut got: Vec<K> = vec![];
                            it.seek_for_iter(&mut iter, ltr).unwrap();
                            while it.iter_is_valid_for_type(&iter, left, None, ltr).unwrap() {
                                c.step();
                                got.push(iter.key().unwrap().ok_or("valid without a key")?.to_vec());
                                ensure!(got.len() <= keys.len(), "does not end");
                                if let Some(l) = left.as_mut() {
                                    *l -= 1;
                                }
                                if ltr {
                                    iter.next().unwrap()
                                } else {
                                    iter.prev().unwrap()
                                }
                            }
                            let n = limit.map_or(want.len(), |l| want.len().min(l as usize));
                            ensure_eq!(got, want[..n].to_vec(), "limit {limit:?}");
                        }
                        let mut iter = ModelIter { keys: &keys, pos: None };
                        it.seek_for_iter(&mut iter, ltr).unwrap();
                        for agg in [-1i64, 0, 1, 2] {
                            ensure_eq!(
                                it.iter_is_valid_for_type(&iter, None, Some(agg), ltr).unwrap(),
                                agg > 0 && !want.is_empty(),
                                "aggregate limit {agg}"
                            );
                        }
                        c.state(format!("{want:?}").as_bytes());
                        Ok(())
                    },
                );
            }
        }
    });
    // compare() is the lexicographic order
    let ks = strings(&[0, 1, 0xff], 3);
    c.case(
        || "compare".into(),
        || {
            for a in &ks {
                for b in &ks {
                    c.step();
                    ensure_eq!(QueryItem::compare(a, b), a.cmp(b), "{} {}", hex(a), hex(b));
                }
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------- C08

fn cfg() -> impl bincode::config::Config {
    bincode::config::standard()
        .with_big_endian()
        .with_limit::<{ 1 << 20 }>()
}

fn branches(subs: &[Option<Query>], paths: &[Option<Vec<K>>]) -> Vec<SubqueryBranch> {
    let mut v = vec![];
    for s in subs {
        for p in paths {
            v.push(SubqueryBranch {
                subquery_path: p.clone(),
                subquery: s.clone().map(Box::new),
            });
        }
    }
    v
}

fn query_round_trip(c: &Ctx, q: &Query) -> Res {
    let enc = bincode::encode_to_vec(q, cfg()).map_err(|e| e.to_string())?;
    c.state(&enc);
    let (d, n): (Query, usize) =
        bincode::decode_from_slice(&enc, cfg()).map_err(|e| format!("decode: {e}"))?;
    ensure_eq!(n, enc.len(), "decoded length");
    ensure_eq!(&d, q, "bincode round trip");
    let (d, n): (Query, usize) =
        bincode::borrow_decode_from_slice(&enc, cfg()).map_err(|e| format!("borrow: {e}"))?;
    ensure_eq!(n, enc.len(), "borrowed length");
    ensure_eq!(&d, q, "borrowed round trip");
    // the order of conditional branches is kept as well
    let order = |q: &Query| -> Vec<QueryItem> {
        q.conditional_subquery_branches
            .iter()
            .flat_map(|m| m.keys().cloned())
            .collect()
    };
    ensure_eq!(order(&d), order(q), "order of the conditional branches");
    if q.conditional_subquery_branches.is_none() {
        // (JSON has no maps with keys like those of conditional branches)
        if let Ok(j) = serde_json::to_string(q) {
            let d: Query = serde_json::from_str(&j).map_err(|e| format!("json: {e} in {j}"))?;
            ensure_eq!(&d, q, "serde round trip");
        }
    }
    let s = bincode::serde::encode_to_vec(q, cfg()).map_err(|e| e.to_string())?;
    let (d, n): (Query, usize) =
        bincode::serde::decode_from_slice(&s, cfg()).map_err(|e| format!("serde: {e}"))?;
    ensure_eq!(n, s.len(), "serde length");
    ensure_eq!(&d, q, "serde round trip");
    ensure_eq!(order(&d), order(q), "order after serde");
    // every strict prefix is refused, never misread or a crash
    for i in 0..enc.len() {
        c.step();
        ensure!(
            bincode::decode_from_slice::<Query, _>(&enc[..i], cfg()).is_err(),
            "a prefix of {i} of {} bytes decodes",
            enc.len()
        );
    }
    Ok(())
}

fn c08(c: &Ctx) {
    c.alloc_limit
        .store(64 << 20, std::sync::atomic::Ordering::Relaxed);
    c.assume("decoding uses a limit of 1 MiB, as proof decoding bounds its input");
    let bounds: Vec<K> = vec![vec![], vec![0], vec![1, 0xff], vec![7; 300]];
    let its = items(&bounds, false);
    let mut qs: Vec<Query> = vec![];
    for i in &its {
        for ltr in [true, false] {
            for par in [true, false] {
                qs.push(Query {
                    items: vec![i.clone()],
                    left_to_right: ltr,
                    add_parent_tree_on_subquery: par,
                    ..Query::default()
                });
            }
        }
    }
    let leafs = vec![
        None,
        Some(Query::default()),
        Some(Query::new_single_key(vec![3])),
        Some(Query::new_single_query_item_with_direction(
            QueryItem::RangeAfterToInclusive(vec![]..=vec![9]),
            false,
        )),
    ];
    let paths = vec![
        None,
        Some(vec![]),
        Some(vec![vec![]]),
        Some(vec![vec![1], vec![2, 3]]),
    ];
    let b1 = branches(&leafs, &paths);
    let few = [its[0].clone(), its[1].clone(), its[its.len() - 1].clone()];
    for d in &b1 {
        for b in &b1 {
            for k in &few {
                let mut q = Query {
                    items: vec![k.clone()],
                    default_subquery_branch: d.clone(),
                    ..Query::new()
                };
                q.add_conditional_subquery(
                    k.clone(),
                    b.subquery_path.clone(),
                    b.subquery.clone().map(|b| *b),
                );
                qs.push(q.clone());
                q.add_conditional_subquery(few[1].clone(), None, None);
                q.add_conditional_subquery(few[0].clone(), Some(vec![vec![5]]), None);
                qs.push(q);
            }
        }
    }
    // nested
    for n in 1..=63usize {
        let mut q = Query::new_single_key(vec![1]);
        for i in 0..n {
            let inner = q;
            q = Query::new_single_key(vec![2]);
            if i % 2 == 0 {
                q.set_subquery(inner);
            } else {
                q.add_conditional_subquery(QueryItem::Key(vec![2]), None, Some(inner));
            }
        }
        qs.push(q);
    }
    c.bound(format!(
        "round trip: {} queries: every item kind over 4 bounds, every pair of 16 branches, nesting 1..63",
        qs.len()
    ));
    let idx: Vec<usize> = (0..qs.len()).collect();
    c.par(&idx, |i| {
        c.case(|| format!("query {i}: {}", qs[*i]), || query_round_trip(c, &qs[*i]));
    });
    // nesting beyond the limit is refused
    for n in [65usize, 66, 100, 1000, 20000] {
        c.case(
            || format!("nesting {n}"),
            || {
                // encoded by hand: the value itself would be too deep to drop
                let mut e = vec![];
                for _ in 0..n {
                    // version, no items, no path, a subquery follows
                    e.extend([1, 0, 0, 1]);
                }
                let r = bincode::decode_from_slice::<Query, _>(&e, cfg());
                ensure!(r.is_err(), "nested {n} deep and accepted");
                let r = bincode::borrow_decode_from_slice::<Query, _>(&e, cfg());
                ensure!(r.is_err(), "nested {n} deep and accepted");
                let r = bincode::decode_from_slice::<SubqueryBranch, _>(&e[2..], cfg());
                ensure!(r.is_err(), "nested {n} deep and accepted");
                Ok(())
            },
        );
    }
    // every byte string up to a length, and every mutation of small encodings
    let alpha: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x80, 250, 251, 252, 253, 254, 255];
    let len = c.pick(4, 5);
    c.bound(format!(
        "decoding of every byte string of length <= {len} over {} bytes",
        alpha.len()
    ));
    let firsts = kit::all_sequences(alpha.len(), 2);
    c.par(&firsts, |f| {
        c.case(
            || format!("bytes {} and up to {} more", hex(&f.iter().map(|i| alpha[*i]).collect::<K>()), len - 2),
            || {
                let mut r = Ok(());
                kit::sequences_upto(alpha.len(), len - 2, |s| {
                    let b: K = f.iter().chain(s).map(|i| alpha[*i]).collect();
                    c.step();
                    if r.is_ok() {
                        r = decode_any(&b);
                    }
                });
                r
            },
        );
    });
    let muts: Vec<usize> = (0..qs.len()).step_by(c.pick(37, 7)).collect();
    c.bound("every single-byte replacement with 18 values of the encodings of a spread of the queries");
    c.par(&muts, |i| {
        c.case(
            || format!("mutate {i}: {}", qs[*i]),
            || {
                let enc = bincode::encode_to_vec(&qs[*i], cfg()).map_err(|e| e.to_string())?;
                for p in 0..enc.len().min(60) {
                    for a in &alpha {
                        let mut m = enc.clone();
                        m[p] = *a;
                        c.step();
                        decode_any(&m)?;
                    }
                }
                Ok(())
            },
        );
    });
    // aggregate sum queries
    for i in &its {
        for (s, l, d) in [
            (0u64, None, true),
            (u64::MAX, Some(u16::MAX), false),
            (300, Some(0), true),
        ] {
            c.case(
                || format!("aggregate {} {s} {l:?} {d}", show(i)),
                || {
                    let mut q = AggregateSumQuery::new_single_query_item_with_direction(
                        i.clone(),
                        d,
                        s,
                        l,
                    );
                    q.items.push(QueryItem::Key(vec![9]));
                    let enc = bincode::encode_to_vec(&q, cfg()).map_err(|e| e.to_string())?;
                    let (x, n): (AggregateSumQuery, usize) =
                        bincode::decode_from_slice(&enc, cfg()).map_err(|e| e.to_string())?;
                    ensure_eq!(n, enc.len(), "length");
                    ensure_eq!(x, q, "round trip");
                    let j = serde_json::to_string(&q).map_err(|e| e.to_string())?;
                    let x: AggregateSumQuery = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                    ensure_eq!(x, q, "serde round trip");
                    Ok(())
                },
            );
        }
    }
}

/// Decoding never fails other than with an error, and what it accepts is a
/// query that encodes to itself.
fn decode_any(b: &[u8]) -> Res {
    if let Ok((q, n)) = bincode::decode_from_slice::<Query, _>(b, cfg()) {
        ensure!(n <= b.len(), "read past the end of {}", hex(b));
        let e = bincode::encode_to_vec(&q, cfg()).map_err(|e| e.to_string())?;
        let (q2, _): (Query, usize) =
            bincode::decode_from_slice(&e, cfg()).map_err(|e| format!("re-decode {}: {e}", hex(b)))?;
        ensure_eq!(q2, q, "unstable decoding of {}", hex(b));
        let r = bincode::borrow_decode_from_slice::<Query, _>(b, cfg());
        ensure!(
            matches!(&r, Ok((q3, m)) if *q3 == q && *m == n),
            "borrowed decoding differs on {}",
            hex(b)
        );
    } else {
        ensure!(
            bincode::borrow_decode_from_slice::<Query, _>(b, cfg()).is_err(),
            "only the borrowed decoding accepts {}",
            hex(b)
        );
    }
    Ok(())
}

// ------------------------------------------------------- evaluating a query

/// Positions a query selects in a universe where every key of `keys` exists at
/// every level of `depth` levels and is a tree above the last one.
pub fn evaluate(
    q: &Query,
    keys: &[K],
    path: &mut Vec<K>,
    depth: usize,
    out: &mut BTreeSet<Vec<K>>,
) {
    for k in keys {
        if !any(&q.items, k) {
            continue;
        }
        let b = q
            .conditional_subquery_branches
            .iter()
            .flatten()
            .find(|(i, _)| selects(i, k))
            .map(|(_, b)| b)
            .unwrap_or(&q.default_subquery_branch);
        let len = path.len();
        path.push(k.clone());
        if let Some(p) = &b.subquery_path {
            path.extend(p.iter().cloned());
        }
        let inside = path.len() <= depth && path[len..].iter().all(|k| keys.contains(k));
        if inside {
            if let Some(s) = &b.subquery {
                evaluate(s, keys, path, depth, out);
            } else {
                out.insert(path.clone());
            }
        }
        path.truncate(len);
    }
}

fn eval(q: &Query, keys: &[K]) -> BTreeSet<Vec<K>> {
    let mut out = BTreeSet::new();
    evaluate(q, keys, &mut vec![], 16, &mut out);
    out
}

include!("query_merge.rs");
