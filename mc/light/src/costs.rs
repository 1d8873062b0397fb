//! C01: the algebra of costs. C02: costs through combinators and macros.
use std::collections::BTreeMap;

use grovedb_costs::{
    cost_return_on_error, cost_return_on_error_default, cost_return_on_error_into,
    cost_return_on_error_into_default, cost_return_on_error_into_no_add,
    cost_return_on_error_no_add,
    storage_cost::{
        key_value_cost::KeyValueStorageCost,
        removal::{StorageRemovedBytes, UNKNOWN_EPOCH},
        transition::OperationStorageTransitionType as T,
        StorageCost,
    },
    CostContext, CostResult, CostsExt, OperationCost, TreeCostType,
};
use intmap::IntMap;
use kit::{ensure, ensure_eq, Ctx, Res, Spec};
use StorageRemovedBytes::{BasicStorageRemoval, NoStorageRemoval, SectionedStorageRemoval};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C01", level: "model_checking", run: c01 },
        Spec { id: "C02", level: "model_checking", run: c02 },
    ]
}

type Sections = BTreeMap<([u8; 32], u16), u64>;

fn model(r: &StorageRemovedBytes) -> Sections {
    let mut m = Sections::new();
    match r {
        NoStorageRemoval => {}
        BasicStorageRemoval(n) => {
            m.insert(([0; 32], UNKNOWN_EPOCH), *n as u64);
        }
        SectionedStorageRemoval(s) => {
            for (id, e) in s {
                for (k, v) in e.iter() {
                    m.insert((*id, k), *v as u64);
                }
            }
        }
    }
    m.retain(|_, v| *v != 0);
    m
}

fn plus(a: &Sections, b: &Sections) -> Sections {
    let mut m = a.clone();
    for (k, v) in b {
        let e = m.entry(*k).or_default();
        *e = (*e + v).min(u32::MAX as u64);
    }
    m
}

fn removals(rich: bool) -> Vec<StorageRemovedBytes> {
    let mut o = vec![NoStorageRemoval];
    for n in [0, 1, 300, u32::MAX] {
        o.push(BasicStorageRemoval(n));
    }
    o.push(SectionedStorageRemoval(Default::default()));
    let mut id = [0u8; 32];
    id[31] = 9;
    let slots = [
        ([0u8; 32], UNKNOWN_EPOCH),
        ([0; 32], 3),
        (id, UNKNOWN_EPOCH),
        (id, 0),
    ];
    let vals = if rich {
        vec![None, Some(0), Some(5), Some(u32::MAX - 2)]
    } else {
        vec![None, Some(5), Some(u32::MAX - 2)]
    };
    kit::sequences(vals.len(), slots.len(), |s| {
        let mut m: BTreeMap<[u8; 32], IntMap<u16, u32>> = BTreeMap::new();
        for (i, v) in s.iter().enumerate() {
            if let Some(v) = vals[*v] {
                m.entry(slots[i].0).or_default().insert(slots[i].1, v);
            }
        }
        if !m.is_empty() {
            o.push(SectionedStorageRemoval(m));
        }
    });
    // many identifiers, many epochs
    for (ids, epochs) in [(40u8, 2u16), (2, 90)] {
        let mut m: BTreeMap<[u8; 32], IntMap<u16, u32>> = BTreeMap::new();
        for i in 0..ids {
            for e in 0..epochs {
                let mut id = [0u8; 32];
                id[31] = i;
                m.entry(id).or_default().insert(if e == 0 { UNKNOWN_EPOCH } else { e }, 5 + u32::from(i));
            }
        }
        o.push(SectionedStorageRemoval(m));
    }
    o
}

fn rank(r: &StorageRemovedBytes) -> u8 {
    match r {
        NoStorageRemoval => 0,
        BasicStorageRemoval(_) => 1,
        SectionedStorageRemoval(_) => 2,
    }
}

fn check_removal(r: &StorageRemovedBytes, want: &Sections) -> Res {
    ensure_eq!(&model(r), want, "removed bytes per identifier and epoch");
    let total: u64 = want.values().sum();
    ensure_eq!(r.total_removed_bytes() as u64, total.min(u32::MAX as u64), "total");
    ensure_eq!(r.has_removal(), total != 0, "has_removal");
    Ok(())
}

/// One of many sections tells bytes.
fn one_of_many(ctx: &Ctx) {
    for (ids, epochs) in [(40u8, 1u16), (1, 90), (7, 30)] {
        for at in 0..=ids as usize * epochs as usize {
            ctx.step();
            ctx.case(
                || format!("{ids} identifiers, {epochs} epochs, bytes in section {at} only"),
                || {
                    let mut m: BTreeMap<[u8; 32], IntMap<u16, u32>> = BTreeMap::new();
                    for i in 0..ids {
                        for e in 0..epochs {
                            let n = i as usize * epochs as usize + e as usize;
                            m.entry([i; 32]).or_default().insert(e, u32::from(n == at));
                        }
                    }
                    let some = at < ids as usize * epochs as usize;
                    let r = SectionedStorageRemoval(m);
                    ensure_eq!(r.has_removal(), some, "has_removal");
                    ensure_eq!(r.total_removed_bytes(), u32::from(some), "total");
                    Ok(())
                },
            );
        }
    }
}

fn c01(ctx: &Ctx) {
    one_of_many(ctx);
    let rem = removals(ctx.thorough);
    ctx.bound(format!(
        "{} removals (none, basic, sections over 2 identifiers x 2 epochs with values up to u32::MAX, 40 identifiers x 2 epochs, 2 x 90): all singles, pairs and triples; storage, key-value and operation costs over boundary values of every field, all pairs; the charge for a key and value over boundary lengths",
        rem.len()
    ));
    for (i, a) in rem.iter().enumerate() {
        ctx.step();
        ctx.state(format!("{a:?}").as_bytes());
        ctx.case(|| format!("removal {i}"), || check_removal(a, &model(a)));
    }
    let idx: Vec<usize> = (0..rem.len()).collect();
    ctx.par(&idx, |i| {
        let a = &rem[*i];
        for (j, b) in rem.iter().enumerate() {
            ctx.step();
            ctx.case(
                || format!("removal {i} + {j}"),
                || {
                    let want = plus(&model(a), &model(b));
                    let s = a.clone() + b.clone();
                    check_removal(&s, &want)?;
                    ensure_eq!(rank(&s), rank(a).max(rank(b)), "kind of the sum");
                    let mut t = a.clone();
                    t += b.clone();
                    check_removal(&t, &want)?;
                    ensure!(s == t, "a + b is {s:?} but a += b is {t:?}");
                    let kv = KeyValueStorageCost {
                        key_storage_cost: StorageCost {
                            removed_bytes: a.clone(),
                            ..Default::default()
                        },
                        value_storage_cost: StorageCost {
                            removed_bytes: b.clone(),
                            ..Default::default()
                        },
                        ..Default::default()
                    };
                    check_removal(&kv.combined_removed_bytes(), &want)?;
                    let (ta, tb) = (a.total_removed_bytes(), b.total_removed_bytes());
                    ensure_eq!(a.partial_cmp(b), Some(ta.cmp(&tb)), "order of removals");
                    Ok(())
                },
            );
            for (k, c) in rem.iter().enumerate() {
                ctx.case(
                    || format!("removal {i} + {j} + {k}"),
                    || {
                        let want = plus(&plus(&model(a), &model(b)), &model(c));
                        let mut t = a.clone();
                        t += b.clone();
                        t += c.clone();
                        ensure_eq!(model(&t), want, "left to right");
                        let r = a.clone() + (b.clone() + c.clone());
                        ensure_eq!(model(&r), want, "right to left");
                        Ok(())
                    },
                );
            }
        }
    });
    // storage costs
    let some: Vec<StorageRemovedBytes> = {
        let r = removals(false);
        let n = r.len();
        vec![
            r[0].clone(), r[1].clone(), r[2].clone(), r[4].clone(), r[5].clone(),
            r[n / 2].clone(), r[n - 1].clone(), r[7].clone(),
        ]
    };
    let nums = [0u32, 1, 77, u32::MAX];
    let mut costs = vec![];
    for a in nums {
        for r in nums {
            for m in &some {
                costs.push(StorageCost {
                    added_bytes: a,
                    replaced_bytes: r,
                    removed_bytes: m.clone(),
                });
            }
        }
    }
    let idx: Vec<usize> = (0..costs.len()).collect();
    ctx.par(&idx, |i| {
        let a = &costs[*i];
        ctx.case(|| format!("storage cost {i}"), || single_storage(a));
        for (j, b) in costs.iter().enumerate() {
            ctx.step();
            ctx.case(|| format!("storage cost {i} and {j}"), || pair_storage(a, b));
        }
    });
    operation_costs(ctx, &costs);
    key_value(ctx);
}

fn single_storage(a: &StorageCost) -> Res {
    let rem = a.removed_bytes.has_removal();
    let got = match a.transition_type() {
        T::OperationInsertNew => 0,
        T::OperationUpdateBiggerSize => 1,
        T::OperationUpdateSmallerSize => 2,
        T::OperationUpdateSameSize => 3,
        T::OperationReplace => 4,
        T::OperationDelete => 5,
        T::OperationNone => 6,
    };
    let want = match (a.added_bytes > 0, a.replaced_bytes > 0, rem) {
        (true, false, false) => 0,
        (true, true, false) => 1,
        (false, true, true) => 2,
        (false, true, false) => 3,
        (true, _, true) => 4,
        (false, false, true) => 5,
        (false, false, false) => 6,
    };
    ensure_eq!(got, want, "transition type of {a:?}");
    ensure_eq!(
        a.has_storage_change(),
        a.added_bytes != 0 || rem,
        "has_storage_change of {a:?}"
    );
    if let Some(len) = a.added_bytes.checked_add(a.replaced_bytes) {
        for l in [len.wrapping_sub(1), len, len.wrapping_add(1), 0, u32::MAX] {
            ensure_eq!(a.verify(l).is_ok(), l == len, "verify({l}) of {a:?}");
            ensure_eq!(
                a.verify_key_storage_cost(l, true).is_ok(),
                l == len,
                "verify_key_storage_cost({l}, new) of {a:?}"
            );
            ensure!(a.verify_key_storage_cost(l, false).is_ok(), "updates need no check");
        }
    }
    Ok(())
}

fn worse(a: &StorageCost, b: &StorageCost) -> bool {
    a.added_bytes >= b.added_bytes
        && a.replaced_bytes >= b.replaced_bytes
        && a.removed_bytes.total_removed_bytes() <= b.removed_bytes.total_removed_bytes()
}

fn sum_storage(a: &StorageCost, b: &StorageCost) -> (u32, u32, Sections) {
    (
        a.added_bytes.saturating_add(b.added_bytes),
        a.replaced_bytes.saturating_add(b.replaced_bytes),
        plus(&model(&a.removed_bytes), &model(&b.removed_bytes)),
    )
}

fn shape(a: &StorageCost) -> (u32, u32, Sections) {
    (a.added_bytes, a.replaced_bytes, model(&a.removed_bytes))
}

fn pair_storage(a: &StorageCost, b: &StorageCost) -> Res {
    let want = sum_storage(a, b);
    let s = a.clone() + b.clone();
    ensure_eq!(shape(&s), want, "{a:?} + {b:?}");
    let mut t = a.clone();
    t += b.clone();
    ensure!(s == t, "{a:?} + {b:?} is {s:?}, += gives {t:?}");
    ensure_eq!(a.worse_or_eq_than(b), worse(a, b), "{a:?} worse or equal than {b:?}");
    for bits in 0..16u8 {
        let bit = |i: u8| bits >> i & 1 == 1;
        let x = KeyValueStorageCost {
            key_storage_cost: a.clone(),
            value_storage_cost: b.clone(),
            new_node: bit(0),
            needs_value_verification: bit(1),
        };
        let y = KeyValueStorageCost {
            key_storage_cost: b.clone(),
            value_storage_cost: a.clone(),
            new_node: bit(2),
            needs_value_verification: bit(3),
        };
        let s = x.clone() + y.clone();
        let mut t = x.clone();
        t += y.clone();
        for (n, r) in [("+", &s), ("+=", &t)] {
            ensure_eq!(shape(&r.key_storage_cost), want, "{n} of the key cost");
            ensure_eq!(shape(&r.value_storage_cost), sum_storage(b, a), "{n} of the value cost");
            ensure_eq!(r.new_node, bit(0) && bit(2), "{n} of new_node");
            ensure_eq!(r.needs_value_verification, bit(1) && bit(3), "{n} of verification");
        }
    }
    Ok(())
}

fn operation_costs(ctx: &Ctx, costs: &[StorageCost]) {
    let mut ops = vec![];
    let vals = [0u32, 3, u32::MAX];
    let storage: Vec<&StorageCost> = costs.iter().step_by(37).collect();
    kit::sequences(3, 4, |s| {
        ops.push(OperationCost {
            seek_count: vals[s[0]],
            storage_cost: storage[(s[0] + 2 * s[1] + s[2] + s[3]) % storage.len()].clone(),
            storage_loaded_bytes: [0, 9, u64::MAX][s[1]],
            hash_node_calls: vals[s[2]],
            sinsemilla_hash_calls: vals[s[3]],
        })
    });
    let idx: Vec<usize> = (0..ops.len()).collect();
    ctx.par(&idx, |i| {
        let a = &ops[*i];
        for (j, b) in ops.iter().enumerate() {
            ctx.step();
            ctx.case(
                || format!("operation cost {i} and {j}"),
                || {
                    let s = a.clone() + b.clone();
                    let mut t = a.clone();
                    t += b.clone();
                    ensure!(s == t, "+ gives {s:?}, += gives {t:?}");
                    ensure_eq!(s.seek_count, a.seek_count.saturating_add(b.seek_count), "seeks");
                    ensure_eq!(
                        s.storage_loaded_bytes,
                        a.storage_loaded_bytes.saturating_add(b.storage_loaded_bytes),
                        "loaded bytes"
                    );
                    ensure_eq!(
                        s.hash_node_calls,
                        a.hash_node_calls.saturating_add(b.hash_node_calls),
                        "hash calls"
                    );
                    ensure_eq!(
                        s.sinsemilla_hash_calls,
                        a.sinsemilla_hash_calls.saturating_add(b.sinsemilla_hash_calls),
                        "sinsemilla calls"
                    );
                    ensure_eq!(
                        shape(&s.storage_cost),
                        sum_storage(&a.storage_cost, &b.storage_cost),
                        "storage cost"
                    );
                    ensure_eq!(
                        a.worse_or_eq_than(b),
                        a.seek_count >= b.seek_count
                            && a.storage_loaded_bytes >= b.storage_loaded_bytes
                            && a.hash_node_calls >= b.hash_node_calls
                            && a.sinsemilla_hash_calls >= b.sinsemilla_hash_calls
                            && worse(&a.storage_cost, &b.storage_cost),
                        "{a:?} worse or equal than {b:?}"
                    );
                    ensure_eq!(a.is_nothing(), *a == OperationCost::default(), "is_nothing");
                    Ok(())
                },
            );
        }
    });
    for n in [0u32, 1, u32::MAX] {
        ctx.case(
            || format!("constructors {n}"),
            || {
                let d = OperationCost::default;
                ensure_eq!(
                    OperationCost::with_seek_count(n),
                    OperationCost { seek_count: n, ..d() },
                    "seeks"
                );
                ensure_eq!(
                    OperationCost::with_hash_node_calls(n),
                    OperationCost { hash_node_calls: n, ..d() },
                    "hashes"
                );
                ensure_eq!(
                    OperationCost::with_storage_loaded_bytes(n as u64),
                    OperationCost { storage_loaded_bytes: n as u64, ..d() },
                    "loaded"
                );
                ensure_eq!(
                    OperationCost::with_storage_written_bytes(n).storage_cost,
                    StorageCost { added_bytes: n, ..Default::default() },
                    "written"
                );
                ensure_eq!(
                    OperationCost::with_storage_freed_bytes(n).storage_cost,
                    StorageCost { removed_bytes: BasicStorageRemoval(n), ..Default::default() },
                    "freed"
                );
                Ok(())
            },
        );
    }
}

/// bytes of a length prefix, seven bits each
fn prefix(n: u64) -> u64 {
    let mut k = 1;
    while n >> (7 * k) > 0 {
        k += 1;
    }
    k
}

type Child = Option<(u32, u32)>;

fn value_charge(
    key: u64,
    value: u64,
    kids: &Option<(Option<(u8, u32)>, Child, Child)>,
) -> u64 {
    let Some((feature, l, r)) = kids else {
        return value + prefix(value);
    };
    let mut v = value.saturating_sub(2);
    for c in [l, r].into_iter().flatten() {
        v = v.saturating_sub(c.0 as u64).saturating_sub(c.1 as u64);
    }
    let mut size = 0;
    if let Some((ty, len)) = feature {
        size = [8, 16, 16][*ty as usize];
        v = v.saturating_sub(*len as u64) + size;
    }
    v += prefix(v);
    v + key + 4 + size
}

fn key_value(ctx: &Ctx) {
    for old in [None, Some(0u32), Some(1), Some(126), Some(127), Some(128), Some(129), Some(20000)] {
        for new in [0u32, 1, 126, 127, 128, 129, 16383, 16384, 20000] {
            ctx.step();
            ctx.case(
                || format!("updated root {old:?} -> {new}"),
                || {
                    let c = KeyValueStorageCost::for_updated_root_cost(old, new);
                    let b = |n: u32| n + prefix(n as u64) as u32;
                    let (ka, kr) = if old.is_some() { (0, 34) } else { (34, 0) };
                    let o = old.map(b).unwrap_or(0);
                    let n = b(new);
                    let removed = o.saturating_sub(n);
                    ensure_eq!(shape(&c.key_storage_cost), (ka, kr, Sections::new()), "key");
                    ensure_eq!(
                        shape(&c.value_storage_cost),
                        (n.saturating_sub(o), o.min(n), model(&BasicStorageRemoval(removed))),
                        "value"
                    );
                    ensure_eq!(c.new_node, old.is_none(), "new node");
                    ensure!(!c.needs_value_verification, "no verification");
                    Ok(())
                },
            );
        }
    }
    let keys = [0u32, 1, 32, 127, 128, 16384];
    let values = [0u32, 1, 2, 40, 126, 127, 128, 129, 130, 136, 137, 16383, 16384, 16390, 70000];
    let kids: Vec<Child> = vec![None, Some((1, 0)), Some((33, 8)), Some((33, 16)), Some((200, 9))];
    let feats: Vec<Option<(u8, u32)>> = vec![
        None, Some((0, 1)), Some((0, 9)), Some((1, 2)), Some((1, 18)), Some((2, 16)),
    ];
    let mut shapes = vec![None];
    for f in &feats {
        for l in &kids {
            for r in &kids {
                shapes.push(Some((*f, *l, *r)));
            }
        }
    }
    ctx.par(&keys, |k| {
        for v in values {
            for (si, s) in shapes.iter().enumerate() {
                let build = || {
                    s.map(|(f, l, r)| {
                        (
                            f.map(|(t, n): (u8, u32)| {
                                (
                                    match t {
                                        0 => TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes,
                                        1 => TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes,
                                        _ => TreeCostType::TreeFeatureUses16Bytes,
                                    },
                                    n,
                                )
                            }),
                            l,
                            r,
                        )
                    })
                };
                let pk = *k + prefix(*k as u64) as u32;
                let pv = value_charge(*k as u64, v as u64, s) as u32;
                ctx.step();
                ctx.case(
                    || format!("charge key {k} value {v} shape {si}"),
                    || {
                        let mut start = OperationCost::with_seek_count(2);
                        start.storage_cost.added_bytes = 5;
                        start.storage_cost.replaced_bytes = 6;
                        let mut c = start.clone();
                        c.add_key_value_storage_costs(*k, v, build(), None)
                            .map_err(|e| e.to_string())?;
                        let mut w = start.clone();
                        w.storage_cost.added_bytes += pk + pv;
                        ensure_eq!(c, w, "charge without cost information");
                        // given costs are charged as given, when they add up
                        for (new, verify, dk, dv) in [
                            (true, true, 0i64, 0i64),
                            (true, true, 1, 0),
                            (true, true, 0, 1),
                            (true, true, 0, -1),
                            (false, true, 1, 0),
                            (false, true, 0, 1),
                            (false, false, 7, 9),
                            (true, false, 0, 9),
                            (true, false, -1, 9),
                        ] {
                            let at = |n: u32, d: i64| (n as i64 + d).max(0) as u32;
                            let (tk, tv) = (at(pk, dk), at(pv, dv));
                            let given = KeyValueStorageCost {
                                key_storage_cost: StorageCost {
                                    added_bytes: tk / 3,
                                    replaced_bytes: tk - tk / 3,
                                    removed_bytes: BasicStorageRemoval(3),
                                },
                                value_storage_cost: StorageCost {
                                    added_bytes: tv / 2,
                                    replaced_bytes: tv - tv / 2,
                                    removed_bytes: BasicStorageRemoval(4),
                                },
                                new_node: new,
                                needs_value_verification: verify,
                            };
                            let ok = (!new || tk == pk) && (!verify || tv == pv);
                            let mut c = start.clone();
                            let r = c.add_key_value_storage_costs(
                                *k,
                                v,
                                build(),
                                Some(given.clone()),
                            );
                            ensure_eq!(r.is_ok(), ok, "verdict on {tk}/{pk} and {tv}/{pv} new {new} verify {verify}");
                            if ok {
                                let w = start.clone().storage_cost
                                    + given.key_storage_cost
                                    + given.value_storage_cost;
                                ensure_eq!(c.storage_cost, w, "charge of given costs");
                            } else {
                                ensure_eq!(c, start, "a refused charge changes nothing");
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

// --------------------------------------------------------------- combinators

/// A cost that can be told from every sum of others.
fn unit(i: usize) -> OperationCost {
    OperationCost {
        seek_count: 1 << (2 * i),
        storage_loaded_bytes: 1 << (3 * i),
        hash_node_calls: 2 << (2 * i),
        sinsemilla_hash_calls: 3 << (2 * i),
        storage_cost: StorageCost {
            added_bytes: 1 << (2 * i),
            replaced_bytes: 2 << (2 * i),
            removed_bytes: BasicStorageRemoval(1 << (2 * i)),
        },
    }
}

#[derive(Debug, PartialEq)]
struct Outer(u32);
impl From<u32> for Outer {
    fn from(x: u32) -> Self {
        Outer(x)
    }
}

type R = Result<u32, u32>;
type M = (R, Vec<usize>);
const OPS: [&str; 21] = [
    "map", "flat_map ok", "flat_map err", "map_ok", "map_err", "flat_map_ok ok",
    "flat_map_ok err", "for_ok", "add_cost", "flatten ok", "flatten err", "nest", "unwrap_add",
    "on_error", "on_error_into", "no_add", "into_no_add", "default", "into_default", "fn_cost",
    "as_result",
];

fn m_on_error(pre: OperationCost, x: CostResult<u32, u32>, post: OperationCost) -> CostResult<u32, u32> {
    let mut cost = pre;
    let v = cost_return_on_error!(&mut cost, x);
    cost += post;
    Ok(v + 1).wrap_with_cost(cost)
}
fn m_on_error_into(pre: OperationCost, x: CostResult<u32, u32>, post: OperationCost) -> CostResult<u32, Outer> {
    let mut cost = pre;
    let v = cost_return_on_error_into!(&mut cost, x);
    cost += post;
    Ok(v + 1).wrap_with_cost(cost)
}
fn m_no_add(pre: OperationCost, x: R, post: OperationCost) -> CostResult<u32, u32> {
    let mut cost = pre;
    let v = cost_return_on_error_no_add!(cost, x);
    cost += post;
    Ok(v + 1).wrap_with_cost(cost)
}
fn m_into_no_add(pre: OperationCost, x: R, post: OperationCost) -> CostResult<u32, Outer> {
    let mut cost = pre;
    let v = cost_return_on_error_into_no_add!(cost, x);
    cost += post;
    Ok(v + 1).wrap_with_cost(cost)
}
fn m_default(x: R, post: OperationCost) -> CostResult<u32, u32> {
    let v = cost_return_on_error_default!(x);
    Ok(v + 1).wrap_with_cost(post)
}
fn m_into_default(x: R, post: OperationCost) -> CostResult<u32, Outer> {
    let v = cost_return_on_error_into_default!(x);
    Ok(v + 1).wrap_with_cost(post)
}

/// The `i`-th step, on the real combinators and on the model.
fn apply(op: usize, i: usize, x: CostResult<u32, u32>, m: M) -> Result<(CostResult<u32, u32>, M), String> {
    let (mv, mut mc) = m;
    let (u, v) = (unit(2 * i + 1), unit(2 * i + 2));
    let (nu, nv) = (2 * i + 1, 2 * i + 2);
    let n = i as u32 + 10;
    Ok(match op {
        0 => (
            x.map(|r| match r {
                Ok(a) => Err(a + n),
                Err(a) => Ok(a + n),
            }),
            (
                match mv {
                    Ok(a) => Err(a + n),
                    Err(a) => Ok(a + n),
                },
                mc,
            ),
        ),
        1 | 2 => {
            let want: R = if op == 1 { Ok(n) } else { Err(n) };
            mc.push(nu);
            (x.flat_map(|_| want.wrap_with_cost(u)), (want, mc))
        }
        3 => (x.map_ok(|a| a + n), (mv.map(|a| a + n), mc)),
        4 => (x.map_err(|a| a + n), (mv.map_err(|a| a + n), mc)),
        5 | 6 => {
            let want: R = if op == 5 { Ok(n) } else { Err(n) };
            let called = std::cell::Cell::new(0);
            let r = x.flat_map_ok(|_| {
                called.set(called.get() + 1);
                want.wrap_with_cost(u)
            });
            ensure_eq!(called.get(), mv.is_ok() as u32, "calls of the continuation");
            if mv.is_ok() {
                mc.push(nu);
                (r, (want, mc))
            } else {
                (r, (mv, mc))
            }
        }
        7 => {
            let mut seen = None;
            let r = x.for_ok(|a| seen = Some(*a));
            ensure_eq!(seen, mv.ok(), "value shown to for_ok");
            (r, (mv, mc))
        }
        8 => {
            mc.push(nu);
            (x.add_cost(u), (mv, mc))
        }
        9 | 10 => {
            let inner: R = if op == 9 { Ok(n) } else { Err(n) };
            let nested: CostResult<Result<u32, u32>, u32> = x.map_ok(|_| inner);
            (nested.flatten(), (mv.and(inner), mc))
        }
        11 => {
            mc.push(nu);
            mc.push(nv);
            let nested: CostContext<CostContext<R>> =
                x.add_cost(u).map(|r| r.wrap_with_cost(v));
            (nested.flatten(), (mv, mc))
        }
        12 => {
            let mut acc = u;
            ensure_eq!(x.value(), &mv, "borrowed value");
            let r = x.unwrap_add_cost(&mut acc);
            mc.push(nu);
            (r.wrap_with_cost(acc), (mv, mc))
        }
        13 | 14 => {
            let r = if op == 13 {
                m_on_error(u, x, v)
            } else {
                m_on_error_into(u, x, v).map_err(|e| e.0)
            };
            mc.push(nu);
            if mv.is_ok() {
                mc.push(nv);
            }
            (r, (mv.map(|a| a + 1), mc))
        }
        15 | 16 => {
            // the macro takes a bare result, the cost so far is the caller's
            let mut pre = u;
            let bare = x.unwrap_add_cost(&mut pre);
            let r = if op == 15 {
                m_no_add(pre, bare, v)
            } else {
                m_into_no_add(pre, bare, v).map_err(|e| e.0)
            };
            mc.push(nu);
            if mv.is_ok() {
                mc.push(nv);
            }
            (r, (mv.map(|a| a + 1), mc))
        }
        17 | 18 => {
            let bare = x.unwrap();
            let r = if op == 17 {
                m_default(bare, v)
            } else {
                m_into_default(bare, v).map_err(|e| e.0)
            };
            (r, (mv.map(|a| a + 1), if mv.is_ok() { vec![nv] } else { vec![] }))
        }
        19 => {
            let c = x.cost().clone();
            let r = x.unwrap().wrap_fn_cost(|r| match r {
                Ok(_) => c + u,
                Err(_) => c + v,
            });
            mc.push(if mv.is_ok() { nu } else { nv });
            (r, (mv, mc))
        }
        _ => {
            let c = x.cost().clone();
            let r = x.cost_as_result();
            match (&r, &mv) {
                (Ok(k), Ok(_)) => ensure_eq!(k, &c, "cost as result"),
                (Err(e), Err(f)) => ensure_eq!(e, f, "error of cost as result"),
                _ => return Err("cost_as_result changed the verdict".into()),
            }
            (mv.wrap_with_cost(c), (mv, mc))
        }
    })
}

fn c02(ctx: &Ctx) {
    let depth = ctx.pick(4, 5);
    ctx.bound(format!(
        "every chain of at most {depth} of the {} combinators and macros, from a success and from an error, every step with a cost of its own",
        OPS.len()
    ));
    for len in 0..=depth {
        let all = kit::all_sequences(OPS.len(), len);
        ctx.par(&all, |s| {
            for start in [Ok(1u32), Err(2u32)] {
                ctx.steps(s.len() as u64);
                ctx.case(
                    || {
                        format!(
                            "{start:?} {}",
                            s.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", ")
                        )
                    },
                    || {
                        let mut x: CostResult<u32, u32> = start.wrap_with_cost(unit(0));
                        let mut m: M = (start, vec![0]);
                        for (i, o) in s.iter().enumerate() {
                            (x, m) = apply(*o, i, x, m)?;
                        }
                        let want = m.1.iter().fold(OperationCost::default(), |mut c, i| {
                            let u = unit(*i);
                            c.seek_count += u.seek_count;
                            c.storage_loaded_bytes += u.storage_loaded_bytes;
                            c.hash_node_calls += u.hash_node_calls;
                            c.sinsemilla_hash_calls += u.sinsemilla_hash_calls;
                            c.storage_cost.added_bytes += u.storage_cost.added_bytes;
                            c.storage_cost.replaced_bytes += u.storage_cost.replaced_bytes;
                            let n = c.storage_cost.removed_bytes.total_removed_bytes()
                                + u.storage_cost.removed_bytes.total_removed_bytes();
                            c.storage_cost.removed_bytes = BasicStorageRemoval(n);
                            c
                        });
                        ctx.state(format!("{m:?}").as_bytes());
                        ensure_eq!(x.value, m.0, "value");
                        let mut got = x.cost;
                        if got.storage_cost.removed_bytes == NoStorageRemoval
                            && want.storage_cost.removed_bytes.total_removed_bytes() == 0
                        {
                            got.storage_cost.removed_bytes = want.storage_cost.removed_bytes.clone();
                        }
                        ensure_eq!(got, want, "cost");
                        Ok(())
                    },
                );
            }
        });
    }
}
