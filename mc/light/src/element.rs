//! C04: stored elements. C05: reference resolution.
use grovedb_element::{
    reference_path::{
        path_from_reference_path_type, path_from_reference_qualified_path_type, ReferencePathType,
    },
    Element, ElementType, ProofNodeType,
};
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_version::version::{v1::GROVE_V1, v2::GROVE_V2, v3::GROVE_V3};
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C04", level: "model_checking", run: c04 },
        Spec { id: "C05", level: "model_checking", run: c05 },
    ]
}

type Flags = Option<Vec<u8>>;

// ------------------------------------------------- the model of the encoding

pub fn var(n: u128, out: &mut Vec<u8>) {
    if n < 251 {
        out.push(n as u8)
    } else if n <= u16::MAX as u128 {
        out.push(251);
        out.extend((n as u16).to_be_bytes())
    } else if n <= u32::MAX as u128 {
        out.push(252);
        out.extend((n as u32).to_be_bytes())
    } else if n <= u64::MAX as u128 {
        out.push(253);
        out.extend((n as u64).to_be_bytes())
    } else {
        out.push(254);
        out.extend(n.to_be_bytes())
    }
}

fn zigzag(n: i128) -> u128 {
    if n < 0 {
        !(n as u128) * 2 + 1
    } else {
        n as u128 * 2
    }
}

fn bytes(b: &[u8], out: &mut Vec<u8>) {
    var(b.len() as u128, out);
    out.extend(b);
}

fn opt(b: &Option<Vec<u8>>, out: &mut Vec<u8>) {
    match b {
        None => out.push(0),
        Some(b) => {
            out.push(1);
            bytes(b, out)
        }
    }
}

fn list(l: &[Vec<u8>], out: &mut Vec<u8>) {
    var(l.len() as u128, out);
    l.iter().for_each(|b| bytes(b, out));
}

fn model_ref(r: &ReferencePathType, o: &mut Vec<u8>) {
    use ReferencePathType::*;
    match r {
        AbsolutePathReference(p) => {
            o.push(0);
            list(p, o)
        }
        UpstreamRootHeightReference(n, p) => {
            o.extend([1, *n]);
            list(p, o)
        }
        UpstreamRootHeightWithParentPathAdditionReference(n, p) => {
            o.extend([2, *n]);
            list(p, o)
        }
        UpstreamFromElementHeightReference(n, p) => {
            o.extend([3, *n]);
            list(p, o)
        }
        CousinReference(k) => {
            o.push(4);
            bytes(k, o)
        }
        RemovedCousinReference(p) => {
            o.push(5);
            list(p, o)
        }
        SiblingReference(k) => {
            o.push(6);
            bytes(k, o)
        }
    }
}

fn model_encode(e: &Element) -> Vec<u8> {
    let mut o = vec![];
    match e {
        Element::Item(v, f) => {
            o.push(0);
            bytes(v, &mut o);
            opt(f, &mut o);
        }
        Element::Reference(r, hop, f) => {
            o.push(1);
            model_ref(r, &mut o);
            match hop {
                None => o.push(0),
                Some(h) => o.extend([1, *h]),
            }
            opt(f, &mut o);
        }
        Element::Tree(k, f) => {
            o.push(2);
            opt(k, &mut o);
            opt(f, &mut o);
        }
        Element::SumItem(s, f) => {
            o.push(3);
            var(zigzag(*s as i128), &mut o);
            opt(f, &mut o);
        }
        Element::SumTree(k, s, f) => {
            o.push(4);
            opt(k, &mut o);
            var(zigzag(*s as i128), &mut o);
            opt(f, &mut o);
        }
        Element::BigSumTree(k, s, f) => {
            o.push(5);
            opt(k, &mut o);
            var(zigzag(*s), &mut o);
            opt(f, &mut o);
        }
        Element::CountTree(k, c, f) => {
            o.push(6);
            opt(k, &mut o);
            var(*c as u128, &mut o);
            opt(f, &mut o);
        }
        Element::CountSumTree(k, c, s, f) => {
            o.push(7);
            opt(k, &mut o);
            var(*c as u128, &mut o);
            var(zigzag(*s as i128), &mut o);
            opt(f, &mut o);
        }
        Element::ProvableCountTree(k, c, f) => {
            o.push(8);
            opt(k, &mut o);
            var(*c as u128, &mut o);
            opt(f, &mut o);
        }
        Element::ItemWithSumItem(v, s, f) => {
            o.push(9);
            bytes(v, &mut o);
            var(zigzag(*s as i128), &mut o);
            opt(f, &mut o);
        }
        Element::ProvableCountSumTree(k, c, s, f) => {
            o.push(10);
            opt(k, &mut o);
            var(*c as u128, &mut o);
            var(zigzag(*s as i128), &mut o);
            opt(f, &mut o);
        }
        Element::CommitmentTree(c, p, f) => {
            o.push(11);
            var(*c as u128, &mut o);
            o.push(*p);
            opt(f, &mut o);
        }
        Element::MmrTree(c, f) => {
            o.push(12);
            var(*c as u128, &mut o);
            opt(f, &mut o);
        }
        Element::BulkAppendTree(c, p, f) => {
            o.push(13);
            var(*c as u128, &mut o);
            o.push(*p);
            opt(f, &mut o);
        }
        Element::DenseAppendOnlyFixedSizeTree(c, h, f) => {
            o.push(14);
            var(*c as u128, &mut o);
            o.push(*h);
            opt(f, &mut o);
        }
    }
    o
}

// ------------------------------------------------------------- the families

pub fn references(rich: bool) -> Vec<ReferencePathType> {
    use ReferencePathType::*;
    let seg: Vec<Vec<u8>> = if rich {
        vec![vec![], b"a".to_vec(), vec![7; 251]]
    } else {
        vec![vec![], b"a".to_vec()]
    };
    let mut lists = vec![];
    kit::sequences_upto(seg.len(), 2, |s| {
        lists.push(s.iter().map(|i| seg[*i].clone()).collect::<Vec<_>>())
    });
    let mut out = vec![];
    for l in &lists {
        out.push(AbsolutePathReference(l.clone()));
        out.push(RemovedCousinReference(l.clone()));
        for n in [0u8, 1, 250, 251, 255] {
            out.push(UpstreamRootHeightReference(n, l.clone()));
            out.push(UpstreamRootHeightWithParentPathAdditionReference(n, l.clone()));
            out.push(UpstreamFromElementHeightReference(n, l.clone()));
        }
    }
    for s in &seg {
        out.push(CousinReference(s.clone()));
        out.push(SiblingReference(s.clone()));
    }
    out
}

pub fn family(rich: bool) -> Vec<Element> {
    let flags: Vec<Flags> = vec![None, Some(vec![]), Some(vec![1]), Some(vec![9; 252])];
    let flags = if rich { flags } else { flags[..3].to_vec() };
    let keys: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![0]), Some(vec![3; 32])];
    let values: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![255, 0, 251],
        vec![5; 250],
        vec![5; 251],
        vec![5; 65535],
        vec![5; 65536],
    ];
    let values = if rich { values } else { values[..5].to_vec() };
    let ints: Vec<i64> = vec![
        0, 1, -1, 124, 125, 126, -125, -126, -127, 32767, 32768, -32768, -32769, 1 << 31,
        (1 << 31) - 1, -(1 << 31), -(1 << 31) - 1, i64::MAX, i64::MIN,
    ];
    let bigs: Vec<i128> = ints
        .iter()
        .map(|i| *i as i128)
        .chain([i64::MAX as i128 + 1, i64::MIN as i128 - 1, i128::MAX, i128::MIN])
        .collect();
    let counts: Vec<u64> = vec![
        0, 1, 250, 251, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX,
    ];
    let few: Vec<i64> = vec![0, -1, 126, i64::MIN];
    let mut o = vec![];
    for f in &flags {
        for v in &values {
            o.push(Element::Item(v.clone(), f.clone()));
            for s in &few {
                o.push(Element::ItemWithSumItem(v.clone(), *s, f.clone()));
            }
        }
        for s in &ints {
            o.push(Element::SumItem(*s, f.clone()));
        }
        for k in &keys {
            o.push(Element::Tree(k.clone(), f.clone()));
            for s in &ints {
                o.push(Element::SumTree(k.clone(), *s, f.clone()));
            }
            for s in &bigs {
                o.push(Element::BigSumTree(k.clone(), *s, f.clone()));
            }
            for c in &counts {
                o.push(Element::CountTree(k.clone(), *c, f.clone()));
                o.push(Element::ProvableCountTree(k.clone(), *c, f.clone()));
                for s in &few {
                    o.push(Element::CountSumTree(k.clone(), *c, *s, f.clone()));
                    o.push(Element::ProvableCountSumTree(k.clone(), *c, *s, f.clone()));
                }
            }
        }
        for c in &counts {
            o.push(Element::MmrTree(*c, f.clone()));
            for p in [0u8, 1, 31, 255] {
                o.push(Element::CommitmentTree(*c, p, f.clone()));
                o.push(Element::BulkAppendTree(*c, p, f.clone()));
                if let Ok(c) = u16::try_from(*c) {
                    o.push(Element::DenseAppendOnlyFixedSizeTree(c, p, f.clone()));
                }
            }
        }
        for r in references(rich) {
            for hop in [None, Some(0), Some(255)] {
                o.push(Element::Reference(r.clone(), hop, f.clone()));
            }
        }
    }
    o
}

/// (discriminant, tree, sum, count, big sum, entry count, non-empty)
fn check_one(e: &Element) -> Res {
    let want = model_encode(e);
    for v in [&GROVE_V1, &GROVE_V2, &GROVE_V3] {
        let s = e.serialize(v).map_err(|x| x.to_string())?;
        ensure_eq!(kit::hex(&s), kit::hex(&want), "serialized bytes");
        let n = e.serialized_size(v).map_err(|x| x.to_string())?;
        ensure_eq!(n, s.len(), "serialized_size");
        let d = Element::deserialize(&s, v).map_err(|x| x.to_string())?;
        ensure!(d == *e, "decoded {d} instead of {e}");
        let mut t = s.clone();
        t.push(0);
        // every proper prefix is refused
        for cut in 0..s.len().min(40) {
            ensure!(Element::deserialize(&s[..cut], v).is_err(), "prefix {cut} decodes");
        }
        ensure!(Element::deserialize(&s[..s.len() - 1], v).is_err(), "cut decodes");
    }
    let ty = ElementType::from_serialized_value(&want).map_err(|x| x.to_string())?;
    ensure_eq!(ty, e.element_type(), "type read from the bytes");
    ensure_eq!(ty as u8, want[0], "discriminant");
    ensure_eq!(ElementType::try_from(want[0]).ok(), Some(ty), "type of the discriminant");
    ensure_eq!(ty.as_str(), e.type_str(), "type_str");
    // classification against the model
    use Element::*;
    let tree = !matches!(e, Item(..) | Reference(..) | SumItem(..) | ItemWithSumItem(..));
    let item = matches!(e, Item(..) | SumItem(..) | ItemWithSumItem(..));
    let refr = matches!(e, Reference(..));
    ensure!(e.is_any_tree() == tree && ty.is_tree() == tree, "is tree");
    ensure!(e.is_any_item() == item && ty.is_item() == item, "is item");
    ensure!(e.is_reference() == refr && ty.is_reference() == refr, "is reference");
    ensure!(ty.has_simple_value_hash() == item, "simple value hash");
    ensure!(ty.has_combined_value_hash() != item, "combined value hash");
    let prov = [ElementType::ProvableCountTree, ElementType::ProvableCountSumTree];
    for p in (0u8..15).map(|i| ElementType::try_from(i).unwrap()).map(Some).chain([None]) {
        let counted = p.is_some_and(|p| prov.contains(&p));
        let want = match (item, refr, counted) {
            (true, _, false) => ProofNodeType::Kv,
            (true, _, true) => ProofNodeType::KvCount,
            (_, true, false) => ProofNodeType::KvRefValueHash,
            (_, true, true) => ProofNodeType::KvRefValueHashCount,
            (_, _, false) => ProofNodeType::KvValueHash,
            (_, _, true) => ProofNodeType::KvValueHashFeatureType,
        };
        ensure_eq!(ty.proof_node_type(p), want, "proof node type under {p:?}");
    }
    let (sum, big): (i64, i128) = match e {
        SumItem(s, _)
        | SumTree(_, s, _)
        | CountSumTree(_, _, s, _)
        | ProvableCountSumTree(_, _, s, _)
        | ItemWithSumItem(_, s, _) => (*s, *s as i128),
        BigSumTree(_, s, _) => (0, *s),
        _ => (0, 0),
    };
    let count = match e {
        CountTree(_, c, _)
        | ProvableCountTree(_, c, _)
        | CountSumTree(_, c, _, _)
        | ProvableCountSumTree(_, c, _, _) => *c,
        _ => 1,
    };
    ensure_eq!(e.sum_value_or_default(), sum, "sum value");
    ensure_eq!(e.big_sum_value_or_default(), big, "big sum value");
    ensure_eq!(e.count_value_or_default(), count, "count value");
    ensure_eq!(e.count_sum_value_or_default(), (count, sum), "count and sum value");
    let entries = match e {
        CommitmentTree(c, ..) | MmrTree(c, _) | BulkAppendTree(c, ..) => Some(*c),
        DenseAppendOnlyFixedSizeTree(c, ..) => Some(*c as u64),
        _ => None,
    };
    ensure_eq!(e.non_merk_entry_count(), entries, "entry count");
    ensure_eq!(e.uses_non_merk_data_storage(), entries.is_some(), "data storage");
    let root = match e {
        Tree(k, _)
        | SumTree(k, ..)
        | BigSumTree(k, ..)
        | CountTree(k, ..)
        | CountSumTree(k, ..)
        | ProvableCountTree(k, ..)
        | ProvableCountSumTree(k, ..) => k.is_some(),
        _ => false,
    };
    ensure_eq!(e.is_non_empty_merk_tree(), root, "non-empty merk tree");
    ensure_eq!(e.is_non_empty_tree(), root || entries.is_some(), "non-empty tree");
    // accessors
    let is_sum = matches!(e, SumItem(..) | ItemWithSumItem(..));
    ensure_eq!(e.as_sum_item_value().ok(), is_sum.then_some(sum), "as_sum_item_value");
    ensure_eq!(e.clone().into_sum_item_value().ok(), is_sum.then_some(sum), "into_sum_item_value");
    let is_st = matches!(e, SumTree(..));
    ensure_eq!(e.as_sum_tree_value().ok(), is_st.then_some(sum), "as_sum_tree_value");
    ensure_eq!(e.clone().into_sum_tree_value().ok(), is_st.then_some(sum), "into_sum_tree_value");
    let b = match e {
        Item(v, _) | ItemWithSumItem(v, ..) => Some(v.clone()),
        _ => None,
    };
    ensure_eq!(e.as_item_bytes().ok().map(|x| x.to_vec()), b, "as_item_bytes");
    ensure_eq!(e.clone().into_item_bytes().ok(), b, "into_item_bytes");
    ensure_eq!(e.is_sum_item(), is_sum, "is_sum_item");
    ensure_eq!(e.has_basic_item(), b.is_some(), "has_basic_item");
    ensure_eq!(e.is_basic_item(), matches!(e, Item(..)), "is_basic_item");
    ensure_eq!(e.is_item_with_sum_item(), matches!(e, ItemWithSumItem(..)), "is_item_with_sum");
    ensure_eq!(e.is_basic_tree(), matches!(e, Tree(..)), "is_basic_tree");
    ensure_eq!(e.is_sum_tree(), is_st, "is_sum_tree");
    ensure_eq!(e.is_big_sum_tree(), matches!(e, BigSumTree(..)), "is_big_sum_tree");
    ensure_eq!(e.is_commitment_tree(), matches!(e, CommitmentTree(..)), "is_commitment_tree");
    ensure_eq!(e.is_mmr_tree(), matches!(e, MmrTree(..)), "is_mmr_tree");
    ensure_eq!(e.is_bulk_append_tree(), matches!(e, BulkAppendTree(..)), "is_bulk");
    ensure_eq!(e.is_dense_tree(), matches!(e, DenseAppendOnlyFixedSizeTree(..)), "is_dense");
    // flags: setting them changes nothing else
    let f = e.get_flags().clone();
    ensure_eq!(e.clone().get_flags_owned(), f, "get_flags_owned");
    let tail = {
        let mut t = vec![];
        opt(&f, &mut t);
        t
    };
    ensure!(want.ends_with(&tail), "flags of the model");
    for g in [None, Some(vec![]), Some(vec![1, 2, 3])] {
        let mut x = e.clone();
        x.set_flags(g.clone());
        let mut w = want[..want.len() - tail.len()].to_vec();
        opt(&g, &mut w);
        ensure_eq!(model_encode(&x), w, "set_flags changed something else");
        ensure_eq!(*x.get_flags(), g, "flags after set_flags");
        let mut y = e.clone();
        *y.get_flags_mut() = g.clone();
        ensure!(x == y, "get_flags_mut");
    }
    // serde, through a binary and a text format
    let c = bincode::config::standard();
    let s = bincode::serde::encode_to_vec(e, c).map_err(|x| x.to_string())?;
    let (d, n): (Element, usize) =
        bincode::serde::decode_from_slice(&s, c).map_err(|x| x.to_string())?;
    ensure!(d == *e && n == s.len(), "serde binary round trip of {e}");
    let j = serde_json::to_string(e).map_err(|x| x.to_string())?;
    let d: Element = serde_json::from_str(&j).map_err(|x| x.to_string())?;
    ensure!(d == *e, "serde json round trip of {e}");
    let _ = format!("{e} {e:?}");
    Ok(())
}

fn decode_total(b: &[u8]) -> Result<bool, String> {
    let d = Element::deserialize(b, &GROVE_V3);
    let t = ElementType::from_serialized_value(b);
    match d {
        Err(_) => Ok(false),
        Ok(e) => {
            if let Ok(t) = t {
                ensure_eq!(t, e.element_type(), "type of the bytes and of the element");
            }
            let s = e.serialize(&GROVE_V3).map_err(|x| x.to_string())?;
            ensure_eq!(s, model_encode(&e), "bytes of the decoded element");
            let again = Element::deserialize(&s, &GROVE_V3).map_err(|x| x.to_string())?;
            ensure!(again == e, "decoding again gave {again} instead of {e}");
            Ok(true)
        }
    }
}

fn constructors() -> Vec<(&'static str, Element, Element)> {
    use Element as E;
    let k = || Some(vec![1, 2]);
    let f = || Some(vec![7]);
    let r = || ReferencePathType::SiblingReference(vec![4]);
    vec![
        ("empty_tree", E::empty_tree(), E::Tree(None, None)),
        ("empty_tree_with_flags", E::empty_tree_with_flags(f()), E::Tree(None, f())),
        ("empty_sum_tree", E::empty_sum_tree(), E::SumTree(None, 0, None)),
        ("empty_big_sum_tree", E::empty_big_sum_tree(), E::BigSumTree(None, 0, None)),
        ("empty_count_tree", E::empty_count_tree(), E::CountTree(None, 0, None)),
        ("empty_count_sum_tree", E::empty_count_sum_tree(), E::CountSumTree(None, 0, 0, None)),
        ("empty_sum_tree_with_flags", E::empty_sum_tree_with_flags(f()), E::SumTree(None, 0, f())),
        (
            "empty_big_sum_tree_with_flags",
            E::empty_big_sum_tree_with_flags(f()),
            E::BigSumTree(None, 0, f()),
        ),
        (
            "empty_count_tree_with_flags",
            E::empty_count_tree_with_flags(f()),
            E::CountTree(None, 0, f()),
        ),
        (
            "empty_count_sum_tree_with_flags",
            E::empty_count_sum_tree_with_flags(f()),
            E::CountSumTree(None, 0, 0, f()),
        ),
        ("new_item", E::new_item(vec![3]), E::Item(vec![3], None)),
        ("new_item_with_flags", E::new_item_with_flags(vec![3], f()), E::Item(vec![3], f())),
        ("new_sum_item", E::new_sum_item(-3), E::SumItem(-3, None)),
        ("new_sum_item_with_flags", E::new_sum_item_with_flags(-3, f()), E::SumItem(-3, f())),
        (
            "new_item_with_sum_item",
            E::new_item_with_sum_item(vec![3], -4),
            E::ItemWithSumItem(vec![3], -4, None),
        ),
        (
            "new_item_with_sum_item_with_flags",
            E::new_item_with_sum_item_with_flags(vec![3], -4, f()),
            E::ItemWithSumItem(vec![3], -4, f()),
        ),
        ("new_reference", E::new_reference(r()), E::Reference(r(), None, None)),
        (
            "new_reference_with_flags",
            E::new_reference_with_flags(r(), f()),
            E::Reference(r(), None, f()),
        ),
        (
            "new_reference_with_hops",
            E::new_reference_with_hops(r(), Some(3)),
            E::Reference(r(), Some(3), None),
        ),
        (
            "new_reference_with_max_hops_and_flags",
            E::new_reference_with_max_hops_and_flags(r(), Some(3), f()),
            E::Reference(r(), Some(3), f()),
        ),
        ("new_tree", E::new_tree(k()), E::Tree(k(), None)),
        ("new_tree_with_flags", E::new_tree_with_flags(k(), f()), E::Tree(k(), f())),
        ("new_sum_tree", E::new_sum_tree(k()), E::SumTree(k(), 0, None)),
        ("new_sum_tree_with_flags", E::new_sum_tree_with_flags(k(), f()), E::SumTree(k(), 0, f())),
        (
            "new_sum_tree_with_flags_and_sum_value",
            E::new_sum_tree_with_flags_and_sum_value(k(), -5, f()),
            E::SumTree(k(), -5, f()),
        ),
        ("new_big_sum_tree", E::new_big_sum_tree(k()), E::BigSumTree(k(), 0, None)),
        (
            "new_big_sum_tree_with_flags",
            E::new_big_sum_tree_with_flags(k(), f()),
            E::BigSumTree(k(), 0, f()),
        ),
        (
            "new_big_sum_tree_with_flags_and_sum_value",
            E::new_big_sum_tree_with_flags_and_sum_value(k(), i128::MIN, f()),
            E::BigSumTree(k(), i128::MIN, f()),
        ),
        ("new_count_tree", E::new_count_tree(k()), E::CountTree(k(), 0, None)),
        (
            "new_count_tree_with_flags",
            E::new_count_tree_with_flags(k(), f()),
            E::CountTree(k(), 0, f()),
        ),
        (
            "new_count_tree_with_flags_and_count_value",
            E::new_count_tree_with_flags_and_count_value(k(), 9, f()),
            E::CountTree(k(), 9, f()),
        ),
        ("new_count_sum_tree", E::new_count_sum_tree(k()), E::CountSumTree(k(), 0, 0, None)),
        (
            "new_count_sum_tree_with_flags",
            E::new_count_sum_tree_with_flags(k(), f()),
            E::CountSumTree(k(), 0, 0, f()),
        ),
        (
            "new_count_sum_tree_with_flags_and_sum_and_count_value",
            E::new_count_sum_tree_with_flags_and_sum_and_count_value(k(), 9, -5, f()),
            E::CountSumTree(k(), 9, -5, f()),
        ),
        (
            "empty_provable_count_tree",
            E::empty_provable_count_tree(),
            E::ProvableCountTree(None, 0, None),
        ),
        (
            "empty_provable_count_tree_with_flags",
            E::empty_provable_count_tree_with_flags(f()),
            E::ProvableCountTree(None, 0, f()),
        ),
        (
            "new_provable_count_tree",
            E::new_provable_count_tree(k()),
            E::ProvableCountTree(k(), 0, None),
        ),
        (
            "new_provable_count_tree_with_flags",
            E::new_provable_count_tree_with_flags(k(), f()),
            E::ProvableCountTree(k(), 0, f()),
        ),
        (
            "new_provable_count_tree_with_flags_and_count_value",
            E::new_provable_count_tree_with_flags_and_count_value(k(), 9, f()),
            E::ProvableCountTree(k(), 9, f()),
        ),
        (
            "empty_provable_count_sum_tree",
            E::empty_provable_count_sum_tree(),
            E::ProvableCountSumTree(None, 0, 0, None),
        ),
        (
            "empty_provable_count_sum_tree_with_flags",
            E::empty_provable_count_sum_tree_with_flags(f()),
            E::ProvableCountSumTree(None, 0, 0, f()),
        ),
        (
            "new_provable_count_sum_tree",
            E::new_provable_count_sum_tree(k()),
            E::ProvableCountSumTree(k(), 0, 0, None),
        ),
        (
            "new_provable_count_sum_tree_with_flags",
            E::new_provable_count_sum_tree_with_flags(k(), f()),
            E::ProvableCountSumTree(k(), 0, 0, f()),
        ),
        (
            "new_provable_count_sum_tree_with_flags_and_sum_and_count_value",
            E::new_provable_count_sum_tree_with_flags_and_sum_and_count_value(k(), 9, -5, f()),
            E::ProvableCountSumTree(k(), 9, -5, f()),
        ),
        (
            "new_commitment_tree",
            E::new_commitment_tree(9, 40, f()),
            E::CommitmentTree(9, 40, f()),
        ),
        ("empty_mmr_tree", E::empty_mmr_tree(), E::MmrTree(0, None)),
        ("empty_mmr_tree_with_flags", E::empty_mmr_tree_with_flags(f()), E::MmrTree(0, f())),
        ("new_mmr_tree", E::new_mmr_tree(9, f()), E::MmrTree(9, f())),
        (
            "new_bulk_append_tree",
            E::new_bulk_append_tree(9, 4, f()),
            E::BulkAppendTree(9, 4, f()),
        ),
        (
            "empty_dense_tree",
            E::empty_dense_tree(4),
            E::DenseAppendOnlyFixedSizeTree(0, 4, None),
        ),
        (
            "empty_dense_tree_with_flags",
            E::empty_dense_tree_with_flags(4, f()),
            E::DenseAppendOnlyFixedSizeTree(0, 4, f()),
        ),
        (
            "new_dense_tree",
            E::new_dense_tree(9, 4, f()),
            E::DenseAppendOnlyFixedSizeTree(9, 4, f()),
        ),
    ]
}

fn c04(ctx: &Ctx) {
    // The decoder may claim up to 256 MiB for the lengths it finds.
    ctx.alloc_limit
        .store(300 << 20, std::sync::atomic::Ordering::Relaxed);
    let fam = family(true);
    ctx.bound(format!(
        "{} elements: every variant x root keys absent/empty/1/32 bytes x values around every length class x sums and counts around every integer size class x flags absent/empty/1/252 bytes x every reference kind with path lists up to 2 segments x hops",
        fam.len()
    ));
    for (name, got, want) in constructors() {
        ctx.step();
        ctx.case(
            || format!("constructor {name}"),
            || {
                ensure_eq!(got, want, "built");
                Ok(())
            },
        );
    }
    for p in 0..=255u8 {
        ctx.case(
            || format!("chunk power {p}"),
            || {
                let ok = p <= 31;
                let f = || Some(vec![1]);
                for (r, w) in [
                    (Element::empty_commitment_tree(p), Element::CommitmentTree(0, p, None)),
                    (
                        Element::empty_commitment_tree_with_flags(p, f()),
                        Element::CommitmentTree(0, p, f()),
                    ),
                    (Element::empty_bulk_append_tree(p), Element::BulkAppendTree(0, p, None)),
                    (
                        Element::empty_bulk_append_tree_with_flags(p, f()),
                        Element::BulkAppendTree(0, p, f()),
                    ),
                ] {
                    ensure_eq!(r.ok(), ok.then_some(w), "tree with chunk power {p}");
                }
                let t = ElementType::try_from(p);
                ensure_eq!(t.is_ok(), p < 15, "discriminant {p}");
                if let Ok(t) = t {
                    ensure_eq!(t as u8, p, "discriminant");
                }
                Ok(())
            },
        );
    }
    ctx.bound("the space of items of 30 lengths with flags of 30 lengths");
    let lens: Vec<u32> = [0u32, 1, 2, 100, 249, 250, 251, 252, 253, 254, 255, 256, 300, 1000]
        .into_iter()
        .chain([1 << 14, (1 << 15) - 1, 1 << 15, 65534, 65535, 65536, 65537, 1 << 17, 1 << 20])
        .chain([(1 << 21) - 1, 1 << 21, 1 << 24, 1 << 28, 1 << 30])
        .collect();
    for a in &lens {
        ctx.case(
            || format!("space of an item of {a} bytes"),
            || {
                for b in &lens {
                    ctx.step();
                    // the usual variable length encoding: seven bits a byte
                    let seven = |n: u32| (1..6u32).find(|k| (n as u64) < 1 << (7 * k)).unwrap();
                    let r = Element::required_item_space(*a, *b, &GROVE_V3).map_err(|e| e.to_string())?;
                    ensure_eq!(r, a + seven(*a) + b + seven(*b) + 1, "with flags of {b} bytes");
                }
                Ok(())
            },
        );
    }
    ctx.bound("items and flags of 1, 16 and 100 MiB");
    for mib in [1usize, 16, 100] {
        ctx.case(
            || format!("an item of {mib} MiB"),
            || {
                ctx.step();
                let e = if mib == 16 {
                    Element::new_item_with_flags(vec![1], Some(vec![2; mib << 20]))
                } else {
                    Element::new_item(vec![1; mib << 20])
                };
                let b = e.serialize(&GROVE_V3).map_err(|e| e.to_string())?;
                let back = Element::deserialize(&b, &GROVE_V3).map_err(|e| e.to_string())?;
                ensure!(back == e, "a large element is read back differently");
                Ok(())
            },
        );
    }
    let idx: Vec<usize> = (0..fam.len()).collect();
    ctx.par(&idx, |i| {
        let e = &fam[*i];
        ctx.step();
        ctx.state(&model_encode(e));
        ctx.case(|| format!("element {i} {}", e.type_str()), || check_one(e));
    });
    // distinct elements have distinct bytes, none a prefix of another
    let mut enc: Vec<Vec<u8>> = fam.iter().map(|e| e.serialize(&GROVE_V3).unwrap()).collect();
    enc.sort();
    for w in enc.windows(2) {
        ctx.case(
            || format!("prefix free {}", kit::hex(&w[0][..w[0].len().min(40)])),
            || {
                ensure!(!w[1].starts_with(&w[0]), "two elements share their bytes");
                Ok(())
            },
        );
    }
    // decoding is total: all short inputs, and all single byte edits
    let depth = ctx.pick(2usize, 3);
    ctx.bound(format!(
        "decoder: every byte string of at most {depth} bytes, every such string after each discriminant, and every truncation, byte replacement (all 256 values) and byte insertion of the short encodings"
    ));
    let heads: Vec<Vec<u8>> = (0..=255u8)
        .map(|b| vec![b])
        .chain((0..16u8).flat_map(|d| [0u8, 1, 250, 251, 253, 254, 255].map(|x| vec![d, x])))
        .chain((0..8u8).map(|d| vec![1, d]))
        .collect();
    ctx.par(&heads, |h| {
        kit::sequences_upto(256, depth.saturating_sub(1), |s| {
            let mut b = h.clone();
            b.extend(s.iter().map(|x| *x as u8));
            ctx.step();
            ctx.case(
                || format!("bytes {}", kit::hex(&b)),
                || {
                    if decode_total(&b)? {
                        ctx.state(&b);
                    }
                    Ok(())
                },
            );
        });
    });
    let mut short: Vec<Vec<u8>> = family(false)
        .iter()
        .map(model_encode)
        .filter(|b| b.len() <= ctx.pick(14, 60))
        .collect();
    short.sort();
    short.dedup();
    ctx.par(&short, |b| {
        let go = |m: &[u8]| {
            ctx.step();
            ctx.case(
                || format!("bytes {}", kit::hex(m)),
                || {
                    decode_total(m)?;
                    Ok(())
                },
            );
        };
        for at in 0..b.len() {
            go(&b[..at]);
            for v in 0..=255u8 {
                let mut m = b.clone();
                m[at] = v;
                go(&m);
                if [0, 1, 127, 250, 251, 252, 253, 254, 255].contains(&v) {
                    let mut m = b.clone();
                    m.insert(at, v);
                    go(&m);
                    // a whole integer of that size class
                    m.splice(at + 1..at + 1, [v; 8]);
                    go(&m);
                }
            }
        }
    });
    ctx.assume("trailing bytes and non-minimal integers are accepted by the decoder; only the encoder is claimed to be canonical");
}

// ---------------------------------------------------------------- references

fn model_resolve(
    r: &ReferencePathType,
    path: &[Vec<u8>],
    key: Option<&[u8]>,
) -> Option<Vec<Vec<u8>>> {
    use ReferencePathType::*;
    let mut o: Vec<Vec<u8>>;
    match r {
        AbsolutePathReference(p) => o = p.clone(),
        UpstreamRootHeightReference(n, p) => {
            o = path.get(..*n as usize)?.to_vec();
            o.extend(p.clone());
        }
        UpstreamRootHeightWithParentPathAdditionReference(n, p) => {
            o = path.get(..*n as usize)?.to_vec();
            o.extend(p.clone());
            o.push(path.last()?.clone());
        }
        UpstreamFromElementHeightReference(n, p) => {
            o = path.get(..path.len().checked_sub(*n as usize)?)?.to_vec();
            o.extend(p.clone());
        }
        CousinReference(k) => {
            o = path.get(..path.len().checked_sub(1)?)?.to_vec();
            o.push(k.clone());
            o.push(key?.to_vec());
        }
        RemovedCousinReference(p) => {
            o = path.get(..path.len().checked_sub(1)?)?.to_vec();
            o.extend(p.clone());
            o.push(key?.to_vec());
        }
        SiblingReference(k) => {
            o = path.to_vec();
            o.push(k.clone());
        }
    }
    Some(o)
}

fn c05(ctx: &Ctx) {
    let segs: Vec<Vec<u8>> = vec![b"a".to_vec(), b"b".to_vec(), vec![]];
    let mut paths: Vec<Vec<Vec<u8>>> = vec![];
    kit::sequences_upto(3, ctx.pick(3, 5), |s| {
        paths.push(s.iter().map(|i| segs[*i].clone()).collect())
    });
    // around the 255 segments that one byte can count
    for n in 253..=258usize {
        paths.push((0..n).map(|i| vec![(i % 251) as u8, (i / 251) as u8]).collect());
    }
    paths.push(vec![vec![b'p'; 700], vec![b'q'; 500]]);
    let keys: Vec<Vec<u8>> = vec![b"k".to_vec(), b"a".to_vec(), vec![], vec![b'l'; 600]];
    let mut lists: Vec<Vec<Vec<u8>>> = vec![];
    let l2: Vec<Vec<u8>> = vec![b"x".to_vec(), b"a".to_vec(), vec![]];
    kit::sequences_upto(3, 2, |s| lists.push(s.iter().map(|i| l2[*i].clone()).collect()));
    lists.push(vec![b"q".to_vec(); 254]);
    lists.push(vec![b"q".to_vec(); 255]);
    lists.push(vec![b"q".to_vec(); 256]);
    lists.push(vec![vec![b'm'; 800], vec![b'n'; 300]]);
    lists.push((0..50).map(|i| vec![i, i]).collect());
    let mut refs = vec![];
    use ReferencePathType::*;
    for l in &lists {
        refs.push(AbsolutePathReference(l.clone()));
        refs.push(RemovedCousinReference(l.clone()));
        for n in [0u8, 1, 2, 3, 4, 5, 6, 253, 254, 255] {
            refs.push(UpstreamRootHeightReference(n, l.clone()));
            refs.push(UpstreamRootHeightWithParentPathAdditionReference(n, l.clone()));
            refs.push(UpstreamFromElementHeightReference(n, l.clone()));
        }
    }
    for s in l2.iter().chain([&vec![b'o'; 900]]) {
        refs.push(CousinReference(s.clone()));
        refs.push(SiblingReference(s.clone()));
    }
    ctx.bound(format!(
        "{} references (every kind, heights 0..=6 and 253..=255, appended lists of at most 2 segments of 50, of 254..=256, and long ones) at {} paths (every one of at most {} segments over a, b and the empty segment, paths of 253..=258 segments, and one with long segments) x {} keys",
        refs.len(), paths.len(), ctx.pick(3, 5), keys.len()
    ));
    ctx.assume("the inverse is claimed for references that resolve to an element (a non-empty qualified path), where the inverse is defined at all");
    let idx: Vec<usize> = (0..paths.len()).collect();
    ctx.par(&idx, |pi| {
        let path = &paths[*pi];
        for (ri, r) in refs.iter().enumerate() {
            for key in &keys {
                ctx.step();
                ctx.case(
                    || {
                        let p = if path.len() < 10 {
                            format!("{path:?}")
                        } else {
                            format!("long{}", path.len())
                        };
                        format!("reference {ri} at {p} key {}", kit::hex(key))
                    },
                    || resolve(ctx, r, path, key),
                );
            }
        }
    });
}

fn resolve(ctx: &Ctx, r: &ReferencePathType, path: &[Vec<u8>], key: &[u8]) -> Res {
    let want = model_resolve(r, path, Some(key));
    let mut qualified = path.to_vec();
    qualified.push(key.to_vec());
    let got = [
        r.clone().absolute_path(path, Some(key)).ok(),
        r.clone().absolute_path_using_current_qualified_path(&qualified).ok(),
        path_from_reference_path_type(r.clone(), path, Some(key)).ok(),
        path_from_reference_qualified_path_type(r.clone(), &qualified).ok(),
        // as a builder over a borrowed slice, and over owned segments
        r.clone()
            .absolute_qualified_path(SubtreePath::from(path).derive_owned(), key)
            .ok()
            .map(|b| b.to_vec()),
        r.clone()
            .absolute_qualified_path(
                SubtreePathBuilder::<Vec<u8>>::owned_from_iter(path.iter()),
                key,
            )
            .ok()
            .map(|b| b.to_vec()),
        match path.split_last() {
            Some((last, rest)) => r
                .clone()
                .absolute_qualified_path(
                    SubtreePath::from(rest).derive_owned_with_child(last.as_slice()),
                    key,
                )
                .ok()
                .map(|b| b.to_vec()),
            None => want.clone(),
        },
    ];
    for (i, g) in got.iter().enumerate() {
        ensure_eq!(g, &want, "resolution {i} of {r}");
    }
    ensure_eq!(
        r.clone().absolute_path(path, None).ok(),
        model_resolve(r, path, None),
        "resolution of {r} without a key"
    );
    let slices: Vec<&[u8]> = path.iter().map(|x| x.as_slice()).collect();
    let e = Element::Reference(r.clone(), Some(4), Some(vec![1]));
    let conv = e.convert_if_reference_to_absolute_reference(&slices, Some(key)).ok();
    let want_conv = want
        .clone()
        .map(|w| Element::Reference(AbsolutePathReferenceOf(w), Some(4), Some(vec![1])));
    ensure_eq!(conv, want_conv, "absolute form of {r}");
    let inverse = r.invert(SubtreePath::from(path), key);
    match (want, inverse) {
        (Some(target), Some(back)) if !target.is_empty() => {
            ctx.outcome("inverted");
            if path.len() < 10 {
                ctx.state(format!("{target:?} {back:?}").as_bytes());
            }
            let (tk, tp) = target.split_last().unwrap();
            let home = model_resolve(&back, tp, Some(tk));
            ensure_eq!(home, Some(qualified), "{r} inverted to {back}");
            let home = back.clone().absolute_path(tp, Some(tk)).ok();
            ensure!(home.is_some(), "{back} does not resolve");
        }
        (Some(_), None) => {
            ctx.outcome("no inverse");
            // an inverse is missing only where one byte can not count the
            // segments, where there is no segment to go back to, or where the
            // reference denotes no element
            use ReferencePathType::*;
            let ok = match r {
                AbsolutePathReference(_) | SiblingReference(_) => false,
                UpstreamRootHeightReference(n, l) => *n == 0 && l.is_empty(),
                UpstreamRootHeightWithParentPathAdditionReference(..) => false,
                UpstreamFromElementHeightReference(_, l) | RemovedCousinReference(l) => {
                    l.len() > 255
                }
                CousinReference(_) => path.is_empty(),
            };
            ensure!(ok, "{r} has no inverse");
        }
        (None, _) => ctx.outcome("unresolvable"),
        _ => ctx.outcome("points to the root"),
    }
    Ok(())
}

#[allow(non_snake_case)]
fn AbsolutePathReferenceOf(p: Vec<Vec<u8>>) -> ReferencePathType {
    ReferencePathType::AbsolutePathReference(p)
}
